//! `fn f(args) -> impl Iterator<Item = X> { let mut a = ..; from_fn(move || BODY) }` becomes a struct of what the
//! closure captures, a function which makes it and a method `next` with the text of BODY. The fields are named
//! vx_0, vx_1, .. in the order of the arguments and then of the variables.
use crate::rewrite::{last_ident, rng};
use quote::ToTokens;
use syn::*;

fn find<'a>(items: &'a [Item], path: &[&str]) -> Option<&'a ItemFn> {
    for i in items {
        match i {
            Item::Mod(m) if path.len() > 1 && m.ident == path[0] => {
                if let Some(f) = m.content.as_ref().and_then(|(_, its)| find(its, &path[1..])) {
                    return Some(f);
                }
            }
            Item::Fn(f) if path.len() == 1 && f.sig.ident == path[0] => return Some(f),
            _ => {}
        }
    }
    None
}

fn replace_ident(ts: proc_macro2::TokenStream, from: &str, to: &str, src: &str, e: &mut Vec<(usize, usize, String)>) {
    let _ = src;
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) if i == from => {
                let r = i.span().byte_range();
                e.push((r.start, r.end, to.to_string()));
            }
            proc_macro2::TokenTree::Group(g) => replace_ident(g.stream(), from, to, src, e),
            _ => {}
        }
    }
}

fn text(src: &str, t: &impl ToTokens) -> String {
    let ts = t.to_token_stream();
    let mut lo = usize::MAX;
    let mut hi = 0;
    for x in ts {
        let r = x.span().byte_range();
        lo = lo.min(r.start);
        hi = hi.max(r.end);
    }
    if lo == usize::MAX {
        String::new()
    } else {
        src[lo..hi].to_string()
    }
}

/// (start, end, new text)
pub fn lift(src: &str, file: &File, key: &str, types: &[String]) -> std::result::Result<(usize, usize, String), String> {
    let path: Vec<&str> = key.split("::").collect();
    let f = find(&file.items, &path).ok_or("no such function")?;
    // from_fn(move || BODY)
    let (last, lets) = f.block.stmts.split_last().ok_or("empty body")?;
    let Stmt::Expr(Expr::Call(c), None) = last else { return Err("does not end in a call".into()) };
    let Expr::Path(p) = &*c.func else { return Err("does not end in from_fn".into()) };
    if last_ident(&p.path) != "from_fn" || c.args.len() != 1 {
        return Err("does not end in from_fn".into());
    }
    let Expr::Closure(cl) = &c.args[0] else { return Err("from_fn of something else".into()) };
    if cl.capture.is_none() || !cl.inputs.is_empty() {
        return Err("not a move closure without arguments".into());
    }
    // Item = X
    let mut item = None;
    if let ReturnType::Type(_, t) = &f.sig.output {
        if let Type::ImplTrait(t) = &**t {
            for b in &t.bounds {
                if let TypeParamBound::Trait(t) = b {
                    if let PathArguments::AngleBracketed(a) = &t.path.segments.last().unwrap().arguments {
                        for a in &a.args {
                            if let GenericArgument::AssocType(a) = a {
                                item = Some(text(src, &a.ty));
                            }
                        }
                    }
                }
            }
        }
    }
    let item = item.ok_or("does not return an iterator")?;
    let mut fields: Vec<(String, String)> = vec![];
    for i in &f.sig.inputs {
        let FnArg::Typed(t) = i else { return Err("takes self".into()) };
        let Pat::Ident(n) = &*t.pat else { return Err("pattern argument".into()) };
        fields.push((n.ident.to_string(), text(src, &t.ty)));
    }
    let mut k = 0;
    for l in lets {
        let Stmt::Local(l) = l else { return Err("statement before from_fn".into()) };
        let (p, ty) = match &l.pat {
            Pat::Type(t) => (&*t.pat, Some(text(src, &t.ty))),
            p => (p, None),
        };
        let Pat::Ident(n) = p else { return Err("pattern before from_fn".into()) };
        let ty = match ty {
            Some(t) => t,
            None => types.get(k).cloned().ok_or("unknown variable")?,
        };
        k += 1;
        fields.push((n.ident.to_string(), ty));
    }
    if k != types.len() {
        return Err("a variable is gone".into());
    }
    let name = format!("Vx_{}", f.sig.ident);
    let mut params = vec![];
    let mut args = vec![];
    let mut marks = vec![];
    for g in &f.sig.generics.params {
        match g {
            GenericParam::Lifetime(l) => {
                params.push(text(src, &l.lifetime));
                args.push(text(src, &l.lifetime));
                marks.push(format!("&{} ()", text(src, &l.lifetime)));
            }
            GenericParam::Type(t) => {
                params.push(t.ident.to_string());
                args.push(t.ident.to_string());
                marks.push(t.ident.to_string());
            }
            GenericParam::Const(_) => return Err("const parameter".into()),
        }
    }
    let g = &f.sig.generics;
    let gen = match (&g.lt_token, &g.gt_token) {
        (Some(a), Some(b)) => src[rng(a).0..rng(b).1].to_string(),
        _ => String::new(),
    };
    let wh = g.where_clause.as_ref().map(|w| text(src, w)).unwrap_or_default();
    let me = format!("{name}<{}>", args.join(", "));
    let fs: Vec<String> = fields.iter().enumerate().map(|(i, (_, t))| format!("pub vx_{i}: {t}")).collect();
    let init: Vec<String> = fields.iter().enumerate().map(|(i, (n, _))| format!("vx_{i}: {n}")).collect();
    // the body, with the fields for what it captures
    let mut e = vec![];
    for (i, (n, _)) in fields.iter().enumerate() {
        replace_ident(cl.body.to_token_stream(), n, &format!("self.vx_{i}"), src, &mut e);
    }
    e.sort();
    let (a, b) = rng(&*cl.body);
    let mut body = String::new();
    let mut at = a;
    for (x, y, t) in e {
        body.push_str(&src[at..x]);
        body.push_str(&t);
        at = y;
    }
    body.push_str(&src[at..b]);
    let (la, lb) = rng(last);
    let (ba, _) = rng(&f.block);
    let ins = &f.sig.inputs;
    let vis = text(src, &f.vis);
    let out = format!(
        "pub struct {name}<{}> {{ {}, pub vx_p: core::marker::PhantomData<({},)> }}\n{vis} fn {}{gen}({}) -> {me} {wh} {}{name} {{ {}, vx_p: core::marker::PhantomData }} }}\nimpl{gen} {me} {wh} {{\n    pub fn next(&mut self) -> Option<{item}> {{ {body} }}\n}}\n",
        params.join(", "),
        fs.join(", "),
        marks.join(", "),
        f.sig.ident,
        text(src, ins),
        &src[ba..la],
        init.join(", "),
    );
    let _ = lb;
    let (fa, fb) = rng(f);
    Ok((fa, fb, out))
}
