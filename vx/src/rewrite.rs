use crate::overlay::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default, Clone)]
pub struct Info {
    pub contract: bool,
    pub trusted: bool,
    pub trait_impl: bool,
    pub defaulted: bool,
    pub line: usize,
    /// closures and loops in the body that no contract speaks of
    pub open: (usize, usize),
}

pub struct Cx<'a> {
    pub src: &'a str,
    pub ov: &'a Overlay,
    pub lost: Vec<String>,
    pub dropped: Vec<String>,
    pub notes: Vec<String>,
    pub infos: BTreeMap<String, Info>,
    /// trait name -> default methods (name, item)
    pub defaults: BTreeMap<String, Vec<TraitItemFn>>,
    keys_seen: BTreeSet<String>,
    twins: String,
    impls_seen: std::collections::BTreeSet<String>,
}

/// Traits whose methods take the resolver as a type parameter: Verus does not have generic associated types
/// bounded by a trait, so the parameter moves to the trait.
const HOIST: &[&str] = &["IntoVisitor", "DecodeAsType", "DecodeAsFields"];
/// Impls of these are not part of what is verified (printing).
const DROP_TRAITS: &[&str] = &["Display", "Debug", "Error", "StructuralPartialEq", "LowerExp"];

/// Local edits to the source text.
#[derive(Default)]
#[derive(Clone)]
pub struct Edits {
    v: Vec<(usize, usize, String, usize)>,
}
impl Edits {
    pub fn replace(&mut self, a: usize, b: usize, s: impl Into<String>) {
        let n = self.v.len();
        self.v.push((a, b, s.into(), n));
    }
    pub fn insert(&mut self, a: usize, s: impl Into<String>) {
        self.replace(a, a, s)
    }
    fn apply(mut self, src: &str, a: usize, b: usize) -> String {
        self.v.retain(|e| e.0 >= a && e.1 <= b);
        self.v.sort_by(|x, y| (x.0, x.1 != x.0, x.3).cmp(&(y.0, y.1 != y.0, y.3)));
        let mut out = String::new();
        let mut pos = a;
        for (s, e, t, _) in &self.v {
            if *s < pos {
                // inside of a region which has been replaced
                continue;
            }
            out.push_str(&src[pos..*s]);
            out.push_str(t);
            pos = *e;
        }
        out.push_str(&src[pos..b]);
        out
    }
}

pub fn rng(s: &impl Spanned) -> (usize, usize) {
    let r = s.span().byte_range();
    (r.start, r.end)
}

pub fn norm(t: &impl ToTokens) -> String {
    fn go(ts: TokenStream, out: &mut String) {
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                TokenTree::Punct(p) if p.as_char() == '\'' => {
                    it.next();
                    if let Some(TokenTree::Punct(p)) = it.peek() {
                        if p.as_char() == ',' {
                            it.next();
                        }
                    }
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    out.push_str(a);
                    go(g.stream(), out);
                    out.push_str(b);
                }
                t => {
                    let s = t.to_string();
                    if out.ends_with(|c: char| c.is_alphanumeric() || c == '_')
                        && s.starts_with(|c: char| c.is_alphanumeric() || c == '_')
                    {
                        out.push(' ');
                    }
                    out.push_str(&s)
                }
            }
        }
    }
    let mut s = String::new();
    go(t.to_token_stream(), &mut s);
    s.replace("<>", "").replace("crate::", "").replace("::core::", "core::")
}

pub fn last_ident(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn has_attr(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| last_ident(a.path()) == name)
}

/// The name of the parameter bounded by TypeResolver, if there is one.
fn resolver_param(g: &Generics) -> Option<String> {
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            for b in &t.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    if last_ident(&tb.path) == "TypeResolver" {
                        return Some(t.ident.to_string());
                    }
                }
            }
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                for b in &t.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        if last_ident(&tb.path) == "TypeResolver" {
                            return Some(norm(&t.bounded_ty));
                        }
                    }
                }
            }
        }
    }
    None
}

impl<'a> Cx<'a> {
    pub fn new(src: &'a str, ov: &'a Overlay) -> Self {
        Cx {
            src,
            ov,
            lost: vec![],
            dropped: vec![],
            notes: vec![],
            infos: Default::default(),
            defaults: Default::default(),
            keys_seen: Default::default(),
            twins: String::new(),
            impls_seen: Default::default(),
        }
    }

    pub fn collect_traits(&mut self, items: &[Item], path: &str) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        self.collect_traits(its, path)
                    }
                }
                Item::Trait(t) => {
                    let v = t
                        .items
                        .iter()
                        .filter_map(|i| match i {
                            TraitItem::Fn(f) if f.default.is_some() => Some(f.clone()),
                            _ => None,
                        })
                        .collect();
                    self.defaults.insert(t.ident.to_string(), v);
                }
                _ => {}
            }
        }
    }

    pub fn mod_text(&self, path: &str) -> Option<String> {
        let t: String =
            self.ov.mods.iter().filter(|(p, _)| p == path).map(|(_, t)| t.as_str()).collect();
        if t.is_empty() {
            None
        } else {
            Some(t)
        }
    }

    fn join(path: &str, name: &str) -> String {
        if path.is_empty() {
            name.to_string()
        } else {
            format!("{path}::{name}")
        }
    }

    pub fn items(&mut self, items: &[Item], path: &str, out: &mut String) {
        for it in items {
            self.item(it, path, out);
        }
    }

    fn item(&mut self, it: &Item, path: &str, out: &mut String) {
        match it {
            Item::Mod(m) => {
                let p = Self::join(path, &m.ident.to_string());
                if self.ov.dropped(&p) || has_attr(&m.attrs, "cfg") {
                    self.dropped.push(p);
                    return;
                }
                if let Some((_, its)) = &m.content {
                    out.push_str(&format!("pub mod {} {{\n#[allow(unused_imports)] use crate::xcr::*; #[allow(unused_imports)] use vstd::prelude::*;\nbroadcast use crate::xcr::axioms::all;\n", m.ident));
                    match self.ov.splits.iter().find(|(m, _)| *m == p).map(|(_, n)| *n) {
                        None => self.items(its, &p, out),
                        // the implementations of a large module are spread over modules inside of it, because Verus
                        // runs one solver per module
                        Some(n) => {
                            let mut shards = vec![String::new(); n];
                            for it in its {
                                if matches!(it, Item::Impl(_)) {
                                    let mut t = String::new();
                                    self.item(it, &p, &mut t);
                                    let k = (0..n).min_by_key(|k| shards[*k].len()).unwrap();
                                    shards[k].push_str(&t);
                                } else {
                                    self.item(it, &p, out);
                                }
                            }
                            for (k, t) in shards.iter().enumerate() {
                                out.push_str(&format!("mod vx_{k} {{\n#[allow(unused_imports)] use super::*;\nbroadcast use crate::xcr::axioms::all;\n{t}}}\n"));
                            }
                        }
                    }
                    if let Some(t) = self.mod_text(&p) {
                        out.push_str(&t);
                    }
                    out.push_str("}\n");
                }
            }
            Item::Macro(_) | Item::ExternCrate(_) => {}
            Item::Use(u) => {
                let mut leaves = vec![];
                use_leaves(&u.tree, "", &mut leaves);
                let lead = if u.leading_colon.is_some() { "::" } else { "" };
                let vis = u.vis.to_token_stream().to_string();
                for l in leaves {
                    let n = l.replace("crate::", "");
                    if self.ov.dropped(&format!("use:{n}")) || self.ov.dropped(&format!("use:{path}:{n}")) || n.starts_with("core::prelude") {
                        continue;
                    }
                    let t = format!("use {lead}{l};");
                    let mut t = t;
                    for (pat, rep, _) in &self.ov.subst {
                        let bare: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
                        if l == bare {
                            t = format!("use {rep};");
                        }
                    }
                    out.push_str(&format!("#[allow(unused_imports)] {vis} {t}\n"));
                }
            }
            Item::Struct(s) => {
                let key = Self::join(path, &s.ident.to_string());
                if self.ov.dropped(&key) {
                    self.dropped.push(key);
                    return;
                }
                for (k, fs, u) in &self.ov.fields {
                    if *k == key {
                        u.set(1);
                        let have: Vec<String> = s
                            .fields
                            .iter()
                            .enumerate()
                            .map(|(i, f)| match &f.ident {
                                Some(i) => i.to_string(),
                                None => i.to_string(),
                            })
                            .collect();
                        if fs.iter().any(|f| !have.contains(f)) {
                            self.lost.push(format!("fields of {key}: {have:?}"));
                        }
                    }
                }
                let mut e = Edits::default();
                strip_attrs_in(&mut e, it);
                // ghost code talks about fields, so they are all visible inside of the crate
                for f in &s.fields {
                    let (a, b) = rng(&f.vis);
                    let (ta, _) = match &f.ident {
                        Some(i) => rng(i),
                        None => rng(&f.ty),
                    };
                    if matches!(f.vis, Visibility::Inherited) {
                        e.insert(ta, "pub ");
                    } else {
                        e.replace(a, b, "pub");
                    }
                }
                self.vis(&s.vis, rng(&s.struct_token).0, &mut e);
                let (a, b) = rng(it);
                self.substs(it.to_token_stream(), &mut e, &key);
                out.push_str(&e.apply(self.src, a, b));
                out.push('\n');
            }
            Item::Enum(s) => {
                let key = Self::join(path, &s.ident.to_string());
                if self.ov.dropped(&key) {
                    self.dropped.push(key);
                    return;
                }
                let mut e = Edits::default();
                strip_attrs_in(&mut e, it);
                self.vis(&s.vis, rng(&s.enum_token).0, &mut e);
                let (a, b) = rng(it);
                self.substs(it.to_token_stream(), &mut e, &key);
                out.push_str(&e.apply(self.src, a, b));
                out.push('\n');
            }
            Item::Type(t) => {
                let key = Self::join(path, &t.ident.to_string());
                if self.ov.dropped(&key) {
                    self.dropped.push(key);
                    return;
                }
                out.push_str(&self.plain(t));
                out.push('\n');
            }
            // what a derive macro makes: `const _: () = { .. };`, a module named after the type
            Item::Const(t) if t.ident == "_" && derived_for(t).is_some() => {
                let n = format!("of_{}", derived_for(t).unwrap());
                let p = Self::join(path, &n);
                out.push_str(&format!("pub mod {n} {{\n#[allow(unused_imports)] use super::*; #[allow(unused_imports)] use crate::xcr::*; #[allow(unused_imports)] use vstd::prelude::*;\nbroadcast use crate::xcr::axioms::all;\n"));
                if let Expr::Block(b) = &*t.expr {
                    for s in &b.block.stmts {
                        if let Stmt::Item(i) = s {
                            self.item(i, &p, out)
                        }
                    }
                }
                if let Some(t) = self.mod_text(&p).or(self.mod_text(&format!("{path}::of_*"))) {
                    out.push_str(&t);
                }
                out.push_str("}\n");
            }
            Item::Const(t) => {
                let key = Self::join(path, &t.ident.to_string());
                if self.ov.dropped(&key) || t.ident == "_" {
                    self.dropped.push(key);
                    return;
                }
                out.push_str(&self.plain(t));
                out.push('\n');
            }
            Item::Fn(f) => {
                let key = Self::join(path, &f.sig.ident.to_string());
                let mut hoisted = String::new();
                let t = self.func(
                    &f.attrs,
                    Some(&f.vis),
                    &f.sig,
                    Some(&f.block),
                    rng(f),
                    &key,
                    path,
                    None,
                    false,
                    false,
                    &mut hoisted,
                );
                out.push_str(&hoisted);
                out.push_str(&t);
            }
            Item::Trait(t) => self.trait_(t, path, out),
            Item::Impl(i) => self.impl_(i, path, out),
            other => self.notes.push(format!(
                "left out: {}",
                other.to_token_stream().to_string().chars().take(60).collect::<String>()
            )),
        }
    }

    fn vis(&self, v: &Visibility, tok: usize, e: &mut Edits) {
        match v {
            Visibility::Inherited => e.insert(tok, "pub "),
            Visibility::Public(_) => {}
            v => {
                let (a, b) = rng(v);
                e.replace(a, b, "pub")
            }
        }
    }

    fn plain<T: ToTokens + Spanned + Attrs>(&self, t: &T) -> String {
        let mut e = Edits::default();
        for a in t.attrs() {
            let (x, y) = rng(a);
            e.replace(x, y, "");
        }
        let (a, b) = rng(t);
        self.substs(t.to_token_stream(), &mut e, "");
        e.apply(self.src, a, b)
    }

    /// Token sequence substitutions from the overlay.
    fn substs(&self, ts: TokenStream, e: &mut Edits, key: &str) {
        if self.ov.subst.is_empty() {
            return;
        }
        let mut flat: Vec<(String, usize, usize)> = vec![];
        flatten(ts, &mut flat);
        for (pat, rep, k) in &self.ov.subst {
            if !glob(k, key) {
                continue;
            }
            let mut p: Vec<(String, usize, usize)> = vec![];
            flatten(pat.parse().expect("subst pattern"), &mut p);
            let mut i = 0;
            while i + p.len() <= flat.len() {
                if (0..p.len()).all(|k| flat[i + k].0 == p[k].0) {
                    e.replace(flat[i].1, flat[i + p.len() - 1].2, rep.clone());
                    i += p.len();
                } else {
                    i += 1;
                }
            }
        }
    }

    fn trait_(&mut self, t: &ItemTrait, path: &str, out: &mut String) {
        let key = Self::join(path, &t.ident.to_string());
        if self.ov.dropped(&key) {
            self.dropped.push(key);
            return;
        }
        let name = t.ident.to_string();
        let hoist = HOIST.contains(&name.as_str());
        let mut e = Edits::default();
        let (ta, _) = rng(t);
        let open = rng(&t.brace_token.span.open()).0;
        strip_attrs(&mut e, &t.attrs);
        self.vis(&t.vis, rng(&t.trait_token).0, &mut e);
        if hoist {
            // (the values of visitors are sized; so are the types which have one)
            let sized = if t.supertraits.is_empty() { ": Sized" } else { "" };
            e.insert(rng(&t.ident).1, format!("<VxR: TypeResolver>{sized}"));
            for b in &t.supertraits {
                if let TypeParamBound::Trait(tb) = b {
                    if HOIST.contains(&last_ident(&tb.path).as_str()) {
                        e.insert(rng(&tb.path).1, "<VxR>");
                    }
                }
            }
        }
        out.push_str(&e.apply(self.src, ta, open));
        out.push_str("{\n");
        for (k, text, u) in &self.ov.traits {
            if *k == key {
                u.set(1);
                out.push_str(text);
            }
        }
        for i in &t.items {
            match i {
                TraitItem::Type(ty) => {
                    let mut e = Edits::default();
                    strip_attrs(&mut e, &ty.attrs);
                    if hoist {
                        if let Some(r) = resolver_param(&ty.generics) {
                            let (a, b) = rng(&ty.generics);
                            e.replace(a, b, "");
                            rename_ident(&mut e, ty.to_token_stream(), &r, "VxR", b);
                        }
                    }
                    let (a, b) = rng(ty);
                    self.substs(ty.to_token_stream(), &mut e, &key);
                    out.push_str(&e.apply(self.src, a, b));
                    out.push('\n');
                }
                TraitItem::Fn(f) => {
                    let fk = format!("{key}::{}", f.sig.ident);
                    if self.ov.dropped(&fk) {
                        self.dropped.push(fk);
                        continue;
                    }
                    let mut hoisted = String::new();
                    let s = self.func(
                        &f.attrs,
                        None,
                        &f.sig,
                        None,
                        rng(f),
                        &fk,
                        path,
                        if hoist { Some("VxR") } else { None },
                        hoist,
                        false,
                        &mut hoisted,
                    );
                    out.push_str(&s);
                }
                _ => {}
            }
        }
        out.push_str("}\n");
    }

    fn impl_(&mut self, i: &ItemImpl, path: &str, out: &mut String) {
        let self_ty = norm(&i.self_ty);
        let tr = i.trait_.as_ref().map(|(_, p, _)| last_ident(p));
        let head = match &tr {
            Some(t) => format!("<{self_ty} as {t}>"),
            None => self_ty.clone(),
        };
        let mut key = Self::join(path, &head);
        if tr.is_some() {
            let mut n = 1;
            let base = key.clone();
            while !self.impls_seen.insert(key.clone()) {
                n += 1;
                key = format!("{base}#{n}");
            }
        }
        let derived = has_attr(&i.attrs, "automatically_derived")
            && !matches!(tr.as_deref(), Some("From") | Some("Default"));
        if derived || self.ov.dropped(&key) {
            self.dropped.push(key);
            return;
        }
        if let Some(t) = &tr {
            let kept = self.ov.impls.iter().any(|(k, _, _)| *k == key);
            if DROP_TRAITS.contains(&t.as_str()) && !kept {
                self.dropped.push(key);
                return;
            }
        }
        let hoist = tr.as_deref().map(|t| HOIST.contains(&t)).unwrap_or(false);
        let mut e = Edits::default();
        let (ia, _) = rng(i);
        let open = rng(&i.brace_token.span.open()).0;
        strip_attrs(&mut e, &i.attrs);
        let mut resolver = resolver_param(&i.generics);
        // our own iterators: `next` becomes an inherent method
        let own_iter = tr.as_deref() == Some("Iterator");
        let mut item_ty = None;
        if own_iter {
            let (x, _) = rng(&i.trait_.as_ref().unwrap().1);
            e.replace(x, rng(&*i.self_ty).0, "");
            for it in &i.items {
                if let ImplItem::Type(t) = it {
                    item_ty = Some(self.src[rng(&t.ty).0..rng(&t.ty).1].to_string());
                }
            }
        }
        if hoist {
            let mut r = None;
            for it in &i.items {
                if let ImplItem::Fn(f) = it {
                    if let Some(x) = resolver_param(&f.sig.generics) {
                        r = Some(x);
                        break;
                    }
                }
            }
            let r = r.unwrap_or("VxR".into());
            self.hoist_paths_in_generics(&i.generics, Some(&r), &mut e);
            match &i.generics.gt_token {
                Some(gt) => {
                    let n = i.generics.params.len();
                    let sep =
                        if n == 0 || i.generics.params.trailing_punct() { "" } else { ", " };
                    e.insert(rng(gt).0, format!("{sep}{r}: TypeResolver"));
                }
                None => e.insert(rng(&i.impl_token).1, format!("<{r}: TypeResolver>")),
            }
            let tp = &i.trait_.as_ref().unwrap().1;
            e.insert(rng(tp).1, format!("<{r}>"));
            resolver = Some(r);
        }
        if !hoist {
            self.hoist_paths_in_generics(&i.generics, resolver.as_deref(), &mut e);
        }
        self.substs(i.self_ty.to_token_stream(), &mut e, &key);
        self.substs(i.generics.to_token_stream(), &mut e, &key);
        if let Some(w) = &i.generics.where_clause {
            self.substs(w.to_token_stream(), &mut e, &key);
        }
        if let (Some((_, p, _)), false) = (&i.trait_, own_iter) {
            self.substs(p.to_token_stream(), &mut e, &key);
        }
        let header = e.clone().apply(self.src, ia, open);
        let mut body = String::new();
        let mut hoisted = String::new();
        let mut have = BTreeSet::new();
        for (k, text, u) in &self.ov.impls {
            if glob(k, &key) && (k.contains('*') || u.get() == 0) {
                u.set(1);
                body.push_str(&text.replace("$R", resolver.as_deref().unwrap_or("R")));
            }
        }
        for it in &i.items {
            match it {
                ImplItem::Type(_) if own_iter => {}
                ImplItem::Type(ty) => {
                    let mut e = Edits::default();
                    strip_attrs(&mut e, &ty.attrs);
                    if hoist {
                        if resolver_param(&ty.generics).is_some() {
                            let (a, b) = rng(&ty.generics);
                            e.replace(a, b, "");
                        }
                    }
                    let mut h =
                        HoistPaths { e: &mut e, r: resolver.as_deref().unwrap_or("_").to_string() };
                    h.visit_type(&ty.ty);
                    self.substs(ty.ty.to_token_stream(), &mut e, &key);
                    let (a, b) = rng(ty);
                    body.push_str(&e.apply(self.src, a, b));
                    body.push('\n');
                }
                ImplItem::Fn(f) => {
                    have.insert(f.sig.ident.to_string());
                    let fk = format!("{key}::{}", f.sig.ident);
                    if self.ov.dropped(&fk) {
                        self.dropped.push(fk);
                        continue;
                    }
                    let t = self.func(
                        &f.attrs,
                        if tr.is_none() || own_iter { Some(&f.vis) } else { None },
                        &f.sig,
                        Some(&f.block),
                        rng(f),
                        &fk,
                        path,
                        resolver.as_deref(),
                        hoist,
                        tr.is_some() && !own_iter,
                        &mut hoisted,
                    );
                    let t = match &item_ty {
                        Some(x) => t.replace("Self::Item", x),
                        None => t,
                    };
                    body.push_str(&t);
                }
                ImplItem::Const(c) => {
                    body.push_str(&self.plain(c));
                    body.push('\n');
                }
                _ => {}
            }
        }
        if let Some(t) = &tr {
            for d in self.defaults.get(t).cloned().unwrap_or_default() {
                let n = d.sig.ident.to_string();
                if have.contains(&n) {
                    continue;
                }
                let fk = format!("{key}::{n}");
                let t = self.func(
                    &d.attrs,
                    None,
                    &d.sig,
                    d.default.as_ref(),
                    rng(&d),
                    &fk,
                    path,
                    resolver.as_deref(),
                    hoist,
                    true,
                    &mut hoisted,
                );
                if let Some(i) = self.infos.get_mut(&fk) {
                    i.defaulted = true
                }
                body.push_str(&t);
            }
        }
        out.push_str(&hoisted);
        out.push_str(&header);
        out.push_str("{\n");
        out.push_str(&body);
        out.push_str("}\n");
        let twins = std::mem::take(&mut self.twins);
        if !twins.is_empty() {
            let (x, _) = rng(&i.trait_.as_ref().unwrap().1);
            e.replace(x, rng(&*i.self_ty).0, "");
            out.push_str(&format!("{} {{\n{twins}}}\n", e.apply(self.src, ia, open)));
        }
    }

    fn hoist_paths_in_generics(&self, g: &Generics, r: Option<&str>, e: &mut Edits) {
        let mut h = HoistPaths { e, r: r.unwrap_or("_").to_string() };
        h.visit_generics(g);
    }

    #[allow(clippy::too_many_arguments)]
    fn func(
        &mut self,
        attrs: &[Attribute],
        vis: Option<&Visibility>,
        sig: &Signature,
        block: Option<&Block>,
        range: (usize, usize),
        key: &str,
        path: &str,
        resolver: Option<&str>,
        hoist: bool,
        in_trait_impl: bool,
        hoisted: &mut String,
    ) -> String {
        if self.ov.dropped(key) {
            self.dropped.push(key.to_string());
            return String::new();
        }
        let ov = self.ov.find_fn(key).cloned();
        if let Some(o) = &ov {
            if o.flags.iter().any(|f| f == "drop") {
                self.dropped.push(key.to_string());
                return String::new();
            }
        }
        let mut ov = ov;
        let twin = in_trait_impl && block.is_some() && ov.as_ref().map(|o| o.flags.iter().any(|f| f == "twin")).unwrap_or(false);
        // (a contract of its own is on both)
        let own = twin && !ov.as_ref().unwrap().spec.trim().is_empty();
        if twin && !own {
            // the contract of the trait, spelled out on the twin
            match self.ov.find_fn(&format!("visitor::Visitor::{}", sig.ident)).cloned() {
                Some(t) if !t.spec.trim().is_empty() => {
                    let o = ov.as_mut().unwrap();
                    o.spec = t.spec;
                    o.ret = t.ret;
                    o.params = t.params;
                }
                _ => self.lost.push(format!("contract of visitor::Visitor::{}", sig.ident)),
            }
        }
        let mut e = Edits::default();
        let (a, b) = range;
        strip_attrs(&mut e, attrs);
        if let Some(v) = vis {
            let p = sig
                .constness
                .as_ref()
                .map(|c| rng(c).0)
                .or(sig.unsafety.as_ref().map(|c| rng(c).0))
                .unwrap_or(rng(&sig.fn_token).0);
            self.vis(v, p, &mut e);
        }
        // `&mut dyn Trait` parameters: any implementation, named by a type parameter
        let mut dyns: Vec<String> = vec![];
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                if let Type::Reference(r) = &*t.ty {
                    if let (Type::TraitObject(o), Some(_)) = (&*r.elem, &r.mutability) {
                        let mut x = o.bounds.to_token_stream().to_string();
                        if let (true, Some(from), Some(to)) = (hoist, resolver_param(&sig.generics), resolver) {
                            x = replace_ident(&x, &from, to);
                        }
                        let n = format!("VxD{}", dyns.len());
                        let (y, z) = rng(o);
                        e.replace(y, z, n.clone());
                        dyns.push(format!("{n}: {x}"));
                    }
                }
            }
        }
        // the resolver parameter of methods of hoisted traits
        let mut res_name = resolver.map(String::from);
        if hoist {
            if let Some(r) = resolver_param(&sig.generics) {
                let mut keep: Vec<String> = sig
                    .generics
                    .params
                    .iter()
                    .filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == r.as_str()))
                    .map(|p| p.to_token_stream().to_string())
                    .collect();
                keep.append(&mut dyns);
                let (x, y) = (
                    rng(sig.generics.lt_token.as_ref().unwrap()).0,
                    rng(sig.generics.gt_token.as_ref().unwrap()).1,
                );
                e.replace(
                    x,
                    y,
                    if keep.is_empty() { String::new() } else { format!("<{}>", keep.join(", ")) },
                );
                if let Some(n) = resolver {
                    if n != r {
                        rename_ident(&mut e, sig.to_token_stream(), &r, n, y);
                        if let Some(bl) = block {
                            rename_ident(&mut e, bl.to_token_stream(), &r, n, y);
                        }
                    }
                }
            }
        }
        if let Some(r) = resolver_param(&sig.generics) {
            if !hoist {
                res_name = Some(r);
            }
        }
        if !dyns.is_empty() {
            match &sig.generics.gt_token {
                Some(gt) => {
                    let sep = if sig.generics.params.is_empty() || sig.generics.params.trailing_punct() { "" } else { ", " };
                    e.insert(rng(gt).0, format!("{sep}{}", dyns.join(", ")));
                }
                None => e.insert(rng(&sig.ident).1, format!("<{}>", dyns.join(", "))),
            }
        }
        self.hoist_paths_in_generics(&sig.generics, res_name.as_deref(), &mut e);
        self.substs(sig.to_token_stream(), &mut e, key);
        let mut mut_self = false;
        for i in &sig.inputs {
            if let FnArg::Receiver(r) = i {
                if r.reference.is_none() && r.mutability.is_some() && block.is_some() {
                    let (x, y) = rng(r.mutability.as_ref().unwrap());
                    e.replace(x, y, "");
                    mut_self = true;
                }
            }
            if let FnArg::Typed(t) = i {
                strip_attrs(&mut e, &t.attrs);
                let mut h = HoistPaths {
                    e: &mut e,
                    r: res_name.clone().unwrap_or("_".into()),
                };
                h.visit_type(&t.ty);
            }
        }
        if let ReturnType::Type(_, t) = &sig.output {
            let mut h = HoistPaths { e: &mut e, r: res_name.clone().unwrap_or("_".into()) };
            h.visit_type(t);
        }
        // patterns `_`-named or `mut x` parameters are fine; name the result
        let o = ov.clone().unwrap_or_default();
        let has_spec = !o.spec.trim().is_empty();
        let ret = o.ret.clone().unwrap_or("res".into());
        let mut spec = o.spec.clone();
        let mut pre = o.pre.clone();
        // canonical parameter names
        let actual: Vec<String> = sig
            .inputs
            .iter()
            .map(|i| match i {
                FnArg::Receiver(_) => "self".to_string(),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    p => norm(p),
                },
            })
            .collect();
        let mut ren: Vec<(String, String)> = vec![];
        if !o.params.is_empty() {
            let act: Vec<&String> = actual.iter().filter(|a| *a != "self").collect();
            if act.len() != o.params.len() {
                self.lost.push(format!("parameters of {key}: {actual:?}"));
            } else {
                for (c, a) in o.params.iter().zip(act) {
                    if c != a {
                        ren.push((c.clone(), a.clone()));
                    }
                }
            }
        }
        let fix = |s: &str| -> String {
            let mut s = s.to_string();
            for (c, a) in &ren {
                s = replace_ident(&s, c, a);
            }
            if let Some(r) = &res_name {
                s = s.replace("$R", r);
            }
            s
        };
        spec = fix(&spec);
        pre = fix(&pre);
        let mut bare = e.clone();
        if has_spec {
            match &sig.output {
                ReturnType::Type(_, t) => {
                    let (x, y) = rng(t);
                    e.insert(x, format!("({ret}: "));
                    e.insert(y, ")");
                }
                ReturnType::Default => {
                    let p = sig.paren_token.span.close().byte_range().end;
                    e.insert(p, format!(" -> ({ret}: ())"));
                }
            }
        }
        let trusted = o.flags.iter().any(|f| f == "trust")
            || self.ov.trusts.iter().any(|t| crate::overlay::glob(t, key));
        let mut lead = String::new();
        lead.push_str(&o.attr);
        let mut open_parts = (0, 0);
        let end;
        match block {
            None => {
                // a required method of a trait (a default body is copied into the impls)
                let p = match &sig.generics.where_clause {
                    Some(w) => rng(w).1.max(sig_end(sig)),
                    None => sig_end(sig),
                };
                if has_spec {
                    e.insert(p, format!("\n{spec}"));
                }
                e.replace(p, b, ";");
                end = b;
            }
            Some(bl) => {
                let open = bl.brace_token.span.open().byte_range();
                let close = bl.brace_token.span.close().byte_range();
                if has_spec {
                    e.insert(open.start, format!("\n{spec}\n"));
                }
                if own {
                    bare = e.clone();
                }
                // the same contract without the body, for calls: recursion goes by the contract
                if o.flags.iter().any(|f| f == "proxy") {
                    let mut p = e.clone();
                    let (x, y) = rng(&sig.ident);
                    p.replace(x, y, format!("vx_p_{}", sig.ident));
                    p.replace(open.start, close.end, "{ unimplemented!() }");
                    hoisted.push_str(&format!("#[verifier::external_body]\n{}\n", p.apply(self.src, a, b)));
                }
                if trusted {
                    lead.push_str("#[verifier::external_body]\n");
                    e.replace(open.start, close.end, "{ unimplemented!() }");
                } else {
                    if !pre.contains("crate::rules::walk") {
                        e.insert(open.end, "\nbroadcast use crate::rules::all;\n");
                    }
                    if !pre.trim().is_empty() {
                        e.insert(open.end, format!("\n{pre}\n"));
                    }
                    if mut_self {
                        e.insert(open.end, "\nlet mut vx_self = self;\n");
                        rename_ident(&mut e, bl.to_token_stream(), "self", "vx_self", 0);
                    }
                    let mut w = Body {
                        cx: self,
                        e: &mut e,
                        o: &o,
                        key,
                        path,
                        res: res_name.clone(),
                        hoisted: String::new(),
                        loops: 0,
                        closures: 0,
                        open: 0,
                        calls: BTreeMap::new(),
                        stmt: vec![],
                        fix: &fix,
                    };
                    w.visit_block(bl);
                    let h = std::mem::take(&mut w.hoisted);
                    let (nl, nc, calls) = (w.loops, w.closures, w.calls.clone());
                    open_parts = (w.open, nl.saturating_sub(o.loops.len()));
                    drop(w);
                    hoisted.push_str(&h);
                    for n in o.loops.keys() {
                        if *n >= nl {
                            self.lost.push(format!("loop {n} of {key}"));
                        }
                    }
                    for n in o.closures.keys() {
                        if *n >= nc {
                            self.lost.push(format!("closure {n} of {key}"));
                        }
                    }
                    for (n, c, _) in o.before.iter().chain(o.after.iter()) {
                        if calls.get(c).copied().unwrap_or(0) <= *n {
                            self.lost.push(format!("call {n} of {c} in {key}"));
                        }
                    }
                    self.substs(bl.to_token_stream(), &mut e, key);
                }
                end = b;
            }
        }
        let line = sig.fn_token.span().start().line;
        let mut k = key.to_string();
        let mut n = 1;
        while !self.keys_seen.insert(k.clone()) {
            n += 1;
            k = format!("{key}#{n}");
        }
        self.infos.insert(
            k.clone(),
            Info {
                contract: has_spec || in_trait_impl,
                trusted,
                trait_impl: in_trait_impl,
                defaulted: false,
                line,
                open: open_parts,
            },
        );
        if block.is_none() {
            return format!("{lead}{}\n", e.apply(self.src, a, end));
        }
        if twin {
            // The body of a method which hands `self` to other functions is checked as an inherent method, and
            // the method of the trait has its contract: for the verifier an implementation of a trait whose
            // functions depend on that implementation is a cycle.
            let mut p = bare;
            let bl = &block.as_ref().unwrap().brace_token.span;
            p.replace(bl.open().byte_range().start, bl.close().byte_range().end, "{ unimplemented!() }");
            let stub = format!("#[verifier::external_body]\n{}\n", p.apply(self.src, a, end));
            let (x, y) = rng(&sig.ident);
            let n: String = if own { key.chars().filter(|c| c.is_ascii_digit()).collect() } else { String::new() };
            e.replace(x, y, format!("vx_b_{}{n}", sig.ident));
            let mut t = e.apply(self.src, a, end);
            for n in ["Value", "Error", "TypeResolver"] {
                t = t.replace(&format!("Self::{n}"), &format!("<Self as crate::visitor::Visitor>::{n}"));
            }
            self.twins.push_str(&format!("/*@F:{k}@*/\n#[verifier::exec_allows_no_decreases_clause]\n{lead}pub {t}\n/*@E@*/\n"));
            return stub;
        }
        format!("/*@F:{k}@*/\n#[verifier::exec_allows_no_decreases_clause]\n{lead}{}\n/*@E@*/\n", e.apply(self.src, a, end))
    }
}

/// `a::{b, c::*}` is `a::b` and `a::c::*`
fn use_leaves(t: &UseTree, pre: &str, out: &mut Vec<String>) {
    match t {
        UseTree::Path(p) => use_leaves(&p.tree, &format!("{pre}{}::", p.ident), out),
        UseTree::Name(n) if n.ident == "self" => out.push(pre.trim_end_matches("::").to_string()),
        UseTree::Name(n) => out.push(format!("{pre}{}", n.ident)),
        UseTree::Rename(r) if r.ident == "self" => out.push(format!("{} as {}", pre.trim_end_matches("::"), r.rename)),
        UseTree::Rename(r) => out.push(format!("{pre}{} as {}", r.ident, r.rename)),
        UseTree::Glob(_) => out.push(format!("{pre}*")),
        UseTree::Group(g) => g.items.iter().for_each(|i| use_leaves(i, pre, out)),
    }
}

fn sig_end(sig: &Signature) -> usize {
    match &sig.output {
        ReturnType::Type(_, t) => rng(t).1,
        ReturnType::Default => sig.paren_token.span.close().byte_range().end,
    }
}

fn flatten(ts: TokenStream, out: &mut Vec<(String, usize, usize)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    _ => ("", ""),
                };
                let o = g.span_open().byte_range();
                let c = g.span_close().byte_range();
                if !a.is_empty() {
                    out.push((a.into(), o.start, o.end));
                }
                flatten(g.stream(), out);
                if !b.is_empty() {
                    out.push((b.into(), c.start, c.end));
                }
            }
            t => {
                let r = t.span().byte_range();
                out.push((t.to_string(), r.start, r.end))
            }
        }
    }
}

fn rename_ident(e: &mut Edits, ts: TokenStream, from: &str, to: &str, after: usize) {
    let mut v = vec![];
    flatten(ts, &mut v);
    for (s, a, b) in v {
        if s == from && a >= after {
            e.replace(a, b, to);
        }
    }
}

pub fn replace_ident(s: &str, from: &str, to: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            out.push_str(if w == from { to } else { &w });
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn strip_attrs(e: &mut Edits, attrs: &[Attribute]) {
    for a in attrs {
        let (x, y) = rng(a);
        e.replace(x, y, "");
    }
}

fn strip_attrs_in(e: &mut Edits, it: &Item) {
    struct S<'b>(&'b mut Edits);
    impl<'b, 'ast> Visit<'ast> for S<'b> {
        fn visit_attribute(&mut self, a: &'ast Attribute) {
            let (x, y) = rng(a);
            self.0.replace(x, y, "");
        }
    }
    S(e).visit_item(it)
}

pub trait Attrs {
    fn attrs(&self) -> &[Attribute];
}
macro_rules! attrs { ($($t:ty),*) => { $(impl Attrs for $t { fn attrs(&self) -> &[Attribute] { &self.attrs } })* } }
attrs!(ItemUse, ItemType, ItemConst, ImplItemConst);

/// `T: IntoVisitor` becomes `T: IntoVisitor<R>`, `<T as IntoVisitor>::AnyVisitor<R>` becomes
/// `<T as IntoVisitor<R>>::AnyVisitor`.
struct HoistPaths<'b> {
    e: &'b mut Edits,
    r: String,
}
impl<'b, 'ast> Visit<'ast> for HoistPaths<'b> {
    fn visit_trait_bound(&mut self, t: &'ast TraitBound) {
        if HOIST.contains(&last_ident(&t.path).as_str()) {
            self.e.insert(rng(&t.path).1, format!("<{}>", self.r));
        } else {
            visit::visit_trait_bound(self, t)
        }
    }
    fn visit_type_path(&mut self, t: &'ast TypePath) {
        hoist_qself(self.e, &t.qself, &t.path, &self.r);
        if t.qself.is_none() && t.path.segments.len() == 2 && t.path.segments[0].ident == "Self" && t.path.segments[1].ident == "AnyVisitor" {
            if let PathArguments::AngleBracketed(a) = &t.path.segments[1].arguments {
                let (x, y) = rng(a);
                self.e.replace(x, y, "");
                return;
            }
        }
        if let Some(q) = &t.qself {
            self.visit_type(&q.ty);
        }
        visit::visit_path(self, &t.path);
    }
}

fn hoist_qself(e: &mut Edits, q: &Option<QSelf>, p: &Path, r: &str) {
    if let Some(q) = q {
        if q.position > 0 {
            let tseg = &p.segments[q.position - 1];
            if HOIST.contains(&tseg.ident.to_string().as_str()) {
                let mut r = r.to_string();
                if let Some(s) = p.segments.iter().nth(q.position) {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        r = a.args.to_token_stream().to_string();
                        let (x, y) = rng(a);
                        e.replace(x, y, "");
                    }
                }
                e.insert(rng(&tseg.ident).1, format!("<{r}>"));
            }
        }
    }
}

struct Body<'b, 'a> {
    cx: &'b mut Cx<'a>,
    e: &'b mut Edits,
    o: &'b FnOv,
    key: &'b str,
    path: &'b str,
    res: Option<String>,
    hoisted: String,
    loops: usize,
    closures: usize,
    open: usize,
    calls: BTreeMap<String, usize>,
    stmt: Vec<(usize, usize)>,
    fix: &'b dyn Fn(&str) -> String,
}

fn escapes(b: &Expr) -> bool {
    struct F(bool);
    impl<'ast> Visit<'ast> for F {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut f = F(false);
    f.visit_expr(b);
    f.0
}

fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure(&f.base),
        Expr::Tuple(t) => t.elems.iter().all(pure),
        Expr::Paren(p) => pure(&p.expr),
        Expr::Struct(s) => s.fields.iter().all(|f| pure(&f.expr)),
        Expr::Reference(r) => pure(&r.expr),
        Expr::Binary(b) => pure(&b.left) && pure(&b.right),
        Expr::Unary(b) => pure(&b.expr),
        Expr::MethodCall(m) => m.args.is_empty() && matches!(m.method.to_string().as_str(), "is_none" | "is_some" | "is_ok" | "is_err") && pure(&m.receiver),
        _ => false,
    }
}

impl<'b, 'a> Body<'b, 'a> {
    fn call(&mut self, name: &str) {
        let n = self.calls.entry(name.to_string()).or_insert(0);
        let k = *n;
        *n += 1;
        if let Some((a, z)) = self.stmt.last().copied() {
            for (i, c, t) in &self.o.before {
                if *i == k && c == name {
                    self.e.insert(a, format!("{}\n", (self.fix)(t)));
                }
            }
            for (i, c, t) in &self.o.after {
                if *i == k && c == name {
                    self.e.insert(z, format!("\n{}", (self.fix)(t)));
                }
            }
        }
    }
    fn src(&self, s: &impl Spanned) -> &'a str {
        let (a, b) = rng(s);
        &self.cx.src[a..b]
    }
    /// What `write!` stands for, if there is nothing but `{}` in the text.
    fn written(&self, to: &Expr, m: &Macro) -> Option<String> {
        use syn::parse::Parser;
        if last_ident(&m.path) != "format_args" {
            return None;
        }
        let args: Vec<Expr> = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated
            .parse2(m.tokens.clone())
            .ok()?
            .into_iter()
            .collect();
        let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = args.first()? else { return None };
        let to = self.src(to);
        let text = l.value();
        let mut steps = vec![];
        let mut lit = String::new();
        let mut next = 0;
        let mut it = text.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' | '}' if it.peek() == Some(&c) => {
                    it.next();
                    lit.push(c);
                }
                '{' => {
                    let mut n = String::new();
                    loop {
                        match it.next()? {
                            '}' => break,
                            d => n.push(d),
                        }
                    }
                    let n: usize = if n.is_empty() { next } else { n.parse().ok()? };
                    next = n + 1;
                    if !lit.is_empty() {
                        steps.push(format!("{to}.write_str({:?})", std::mem::take(&mut lit)));
                    }
                    steps.push(format!("crate::xcr::text::Display::fmt(&{}, {to})", self.src(args.get(n + 1)?)));
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() || steps.is_empty() {
            steps.push(format!("{to}.write_str({lit:?})"));
        }
        let mut t = steps.pop().unwrap();
        while let Some(s) = steps.pop() {
            t = format!("(match {s} {{ Ok(()) => {t}, Err(vx_e) => Err(vx_e) }})");
        }
        Some(t)
    }
}

impl<'b, 'a, 'ast> Visit<'ast> for Body<'b, 'a> {
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        let (x, y) = rng(a);
        self.e.replace(x, y, "");
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        let (a, b) = rng(s);
        match s {
            Stmt::Item(Item::Macro(_)) => {
                self.e.replace(a, b, "");
                return;
            }
            Stmt::Item(Item::Const(c)) => {
                // a constant of a body: the same expression, bound by `let`
                strip_attrs(self.e, &c.attrs);
                let (x, y) = rng(&c.const_token);
                self.e.replace(x, y, "let");
                return;
            }
            Stmt::Item(it) => {
                // items of a body move in front of the function
                self.e.replace(a, b, "");
                let path = self.path.to_string();
                let mut h = String::new();
                if let (Item::Use(u), true) = (it, self.key.starts_with("shapes::")) {
                    // (next to a struct called Visitor; only their methods are used)
                    let mut ls = vec![];
                    use_leaves(&u.tree, "", &mut ls);
                    if ls.iter().all(|l| matches!(l.rsplit("::").next(), Some("Visitor" | "IntoVisitor"))) {
                        for l in ls {
                            h.push_str(&format!("#[allow(unused_imports)] use {l} as _;\n"));
                        }
                        self.hoisted.push_str(&h);
                        return;
                    }
                }
                self.cx.item(it, &path, &mut h);
                self.hoisted.push_str(&h);
                return;
            }
            Stmt::Macro(m) => {
                self.cx.notes.push(format!("macro {} in {}", norm(&m.mac.path), self.key));
            }
            _ => {}
        }
        self.stmt.push((a, b));
        visit::visit_stmt(self, s);
        self.stmt.pop();
    }
    fn visit_expr_while(&mut self, w: &'ast ExprWhile) {
        let n = self.loops;
        self.loops += 1;
        if let Some(t) = self.o.loops.get(&n) {
            self.e.insert(rng(&w.body).0, format!("\n{}\n", (self.fix)(t)));
        }
        visit::visit_expr_while(self, w)
    }
    fn visit_expr_loop(&mut self, w: &'ast ExprLoop) {
        let n = self.loops;
        self.loops += 1;
        if let Some(t) = self.o.loops.get(&n) {
            self.e.insert(rng(&w.body).0, format!("\n{}\n", (self.fix)(t)));
        }
        visit::visit_expr_loop(self, w)
    }
    fn visit_expr_for_loop(&mut self, f: &'ast ExprForLoop) {
        // for P in E { B }  =>  { let mut vx_it = E.into_iter(); while let Some(P) = vx_it.next() { B } }
        let n = self.loops;
        self.loops += 1;
        let (a, b) = rng(f);
        let (pa, pb) = rng(&*f.pat);
        let (ea, eb) = rng(&*f.expr);
        let inv = self.o.loops.get(&n).map(|t| (self.fix)(t)).unwrap_or_default();
        let label = f.label.as_ref().map(|l| self.src(l).to_string()).unwrap_or_default();
        let pat = self.cx.src[pa..pb].to_string();
        let body = rng(&f.body).0;
        self.e.replace(a, ea, format!("{{ let mut vx_it{n} = ("));
        self.e.insert(eb, format!(").vx_into_iter();\n{label} while let Some({pat}) = vx_it{n}.next()\n{inv}\n"));
        let _ = body;
        self.e.insert(b, "}");
        self.visit_expr(&f.expr);
        self.visit_block(&f.body);
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        let n = self.closures;
        self.closures += 1;
        let (ba, bb) = rng(&*c.body);
        if let Some(t) = self.o.closures.get(&n) {
            self.e.insert(ba, format!(" {} {{ ", (self.fix)(t)));
            self.e.insert(bb, " }");
        } else if matches!(c.output, ReturnType::Default) && pure(&c.body) {
            let t = self.src(&*c.body).to_string();
            self.e.insert(ba, format!(" -> (vx_r: _) ensures equal(vx_r, {t}) {{ "));
            self.e.insert(bb, " }");
        } else {
            self.open += 1;
        }
        visit::visit_expr_closure(self, c)
    }
    fn visit_expr_range(&mut self, r: &'ast ExprRange) {
        if let (Some(x), Some(y), RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) {
            self.e.insert(rng(&**x).0, "crate::xcr::vx_range_inclusive(");
            self.e.replace(rng(&**x).1, rng(&**y).0, ", ");
            self.e.insert(rng(&**y).1, ")");
        }
        visit::visit_expr_range(self, r)
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let name = m.method.to_string();
        self.call(&name);
        for (from, to, k) in &self.cx.ov.renames {
            if *from == name && glob(k, self.key) {
                let (a, b) = rng(&m.method);
                self.e.replace(a, b, to.clone());
            }
        }
        let (a, b) = rng(m);
        // write!(f, "..", ..): the pieces one after the other, up to the first error
        if name == "write_fmt" && m.args.len() == 1 {
            if let Expr::Macro(x) = &m.args[0] {
                if let Some(t) = self.written(&m.receiver, &x.mac) {
                    self.e.replace(a, b, t);
                    return;
                }
            }
        }
        let (_, rb) = rng(&*m.receiver);
        // Inline the combinators which take a function: they are their definition.
        if (name == "map_err" || name == "ok_or_else" || name == "and_then" || name == "unwrap_or_else") && m.args.len() == 1 {
            let (ok, bad, wrap): (&str, &str, (&str, &str)) = match name.as_str() {
                "map_err" => ("Ok(vx_v) => Ok(vx_v)", "Err", ("Err(", ")")),
                "ok_or_else" => ("Some(vx_v) => Ok(vx_v)", "None", ("Err(", ")")),
                _ => ("", "", ("", "")),
            };
            match &m.args[0] {
                Expr::Closure(c) if !ok.is_empty() && !escapes(&c.body) => {
                    let (ca, cb) = rng(&*c.body);
                    let pat = c
                        .inputs
                        .first()
                        .map(|p| format!("({})", self.src(p)))
                        .unwrap_or_default();
                    let pat = match c.inputs.first() {
                        Some(Pat::Type(t)) => format!("({})", self.src(&*t.pat)),
                        _ => pat,
                    };
                    self.e.insert(a, "(match ");
                    self.e.replace(rb, ca, format!(" {{ {ok}, {bad}{pat} => {}", wrap.0));
                    self.e.replace(cb, b, format!("{} }})", wrap.1));
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
                Expr::Path(p) if name == "map_err" => {
                    let f = self.src(p).to_string();
                    self.e.insert(a, "(match ");
                    self.e.replace(
                        rb,
                        b,
                        format!(" {{ Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err({f}(vx_e)) }})"),
                    );
                    self.visit_expr(&m.receiver);
                    return;
                }
                _ => {}
            }
        }
        let kind = self.cx.ov.inlines.iter().find(|(n, _, k)| *n == name && glob(k, self.key)).map(|x| x.1.clone());
        if let (Some(kind), 1) = (kind, m.args.len()) {
            let (some, none) = if kind == "Result" { ("Ok", "Err(vx_e) => Err(vx_e)") } else { ("Some", "None => None") };
            let (w1, w2) = if name == "map" { (format!("{some}("), ")") } else { (String::new(), "") };
            match &m.args[0] {
                Expr::Closure(c) if !escapes(&c.body) && c.inputs.len() == 1 => {
                    let (ca, cb) = rng(&*c.body);
                    let pat = match &c.inputs[0] {
                        Pat::Type(t) => self.src(&*t.pat).to_string(),
                        p => self.src(p).to_string(),
                    };
                    self.e.insert(a, "(match ");
                    self.e.replace(rb, ca, format!(" {{ {none}, {some}({pat}) => {w1}"));
                    self.e.replace(cb, b, format!("{w2} }})"));
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
                Expr::Path(p) => {
                    let f = self.src(p).to_string();
                    self.e.insert(a, "(match ");
                    self.e.replace(rb, b, format!(" {{ {none}, {some}(vx_v) => {w1}{f}(vx_v){w2} }})"));
                    self.visit_expr(&m.receiver);
                    return;
                }
                _ => {}
            }
        }
        // constructors used as functions
        for arg in &m.args {
            if let Expr::Path(p) = arg {
                if p.qself.is_none()
                    && p.path.segments.len() >= 2
                    && matches!(name.as_str(), "map" | "and_then")
                {
                    let f = self.src(arg).to_string();
                    let (x, y) = rng(arg);
                    self.e.replace(
                        x,
                        y,
                        format!("|vx_a| -> (vx_r: _) requires call_requires({f}, (vx_a,)) ensures call_ensures({f}, (vx_a,), vx_r) {{ {f}(vx_a) }}"),
                    );
                }
            }
        }
        visit::visit_expr_method_call(self, m)
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let l = last_ident(&p.path);
            self.call(&l);
            if p.qself.is_none() {
                let to = self.cx.ov.fns.iter().find(|f| f.flags.iter().any(|x| x == "proxy") && f.key.rsplit("::").next() == Some(l.as_str()));
                if let Some(f) = to {
                    let m = &f.key[..f.key.len() - l.len()];
                    let (a, _) = rng(&p.path);
                    let (_, b) = rng(&p.path.segments.last().unwrap().ident);
                    self.e.replace(a, b, format!("crate::{m}vx_p_{l}"));
                    visit::visit_expr_call(self, c);
                    return;
                }
            }
            if l == "must_use" {
                // format!(..)
                struct F(Option<TokenStream>);
                impl<'ast> Visit<'ast> for F {
                    fn visit_macro(&mut self, m: &'ast Macro) {
                        if last_ident(&m.path) == "format_args" {
                            self.0 = Some(m.tokens.clone())
                        }
                    }
                }
                let mut f = F(None);
                f.visit_expr_call(c);
                if let Some(ts) = f.0 {
                    use syn::parse::Parser;
                    let args = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated
                        .parse2(ts)
                        .map(|a| a.into_iter().collect::<Vec<_>>())
                        .unwrap_or_default();
                    let (a, b) = rng(c);
                    let n = args.len().saturating_sub(1);
                    let mut t = format!("crate::xcr::vx_format{n}(");
                    for (i, x) in args.iter().enumerate() {
                        if i > 0 {
                            t.push_str(", &");
                        }
                        t.push_str(self.src(x));
                    }
                    t.push(')');
                    self.e.replace(a, b, t);
                    return;
                }
            }
            if l == "box_assume_init_into_vec_unsafe" {
                if let Some(Expr::Call(inner)) = c.args.first() {
                    if let Some(arr) = inner.args.iter().nth(1) {
                        let (a, b) = rng(c);
                        let Expr::Array(l) = arr else { return };
                        let n = l.elems.len();
                        let mut at = a;
                        let mut t = format!("{}crate::xcr::vx_none()", "crate::xcr::vx_push(".repeat(n));
                        for x in &l.elems {
                            let (p, q) = rng(x);
                            t.push_str(", ");
                            self.e.replace(at, p, t);
                            self.visit_expr(x);
                            at = q;
                            t = ")".to_string();
                        }
                        self.e.replace(at, b, t);
                        return;
                    }
                }
            }
            if l == "into_visitor" {
                // T::into_visitor::<R>()  =>  <T as IntoVisitor<R>>::into_visitor()
                let (a, b) = rng(&*c.func);
                let seg = p.path.segments.last().unwrap();
                let r = match &seg.arguments {
                    PathArguments::AngleBracketed(x) => x.args.to_token_stream().to_string(),
                    _ => self.res.clone().unwrap_or("_".into()),
                };
                let ty = match &p.qself {
                    Some(q) if q.position == 0 => self.src(&*q.ty).to_string(),
                    Some(q) => self.src(&*q.ty).to_string(),
                    None => {
                        let n = p.path.segments.len();
                        p.path
                            .segments
                            .iter()
                            .take(n - 1)
                            .map(|s| s.to_token_stream().to_string())
                            .collect::<Vec<_>>()
                            .join("::")
                    }
                };
                self.e.replace(a, b, format!("<{ty} as crate::IntoVisitor<{r}>>::into_visitor"));
                return;
            }
            hoist_qself(self.e, &p.qself, &p.path, self.res.as_deref().unwrap_or("_"));
        }
        visit::visit_expr_call(self, c)
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}

/// The type an `IntoVisitor` impl inside of a `const _` block is for.
fn derived_for(c: &ItemConst) -> Option<String> {
    let Expr::Block(b) = &*c.expr else { return None };
    b.block.stmts.iter().find_map(|s| match s {
        Stmt::Item(Item::Impl(i)) if i.trait_.as_ref().map(|t| last_ident(&t.1)).as_deref() == Some("IntoVisitor") => match &*i.self_ty {
            Type::Path(p) => Some(last_ident(&p.path)),
            _ => None,
        },
        _ => None,
    })
}
