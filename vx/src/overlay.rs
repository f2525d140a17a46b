//! The overlay: contracts, ghost code and rules, kept apart from the code and attached to it by name.
//!
//! A line based format; a block starts with a `%` directive at the start of a line and lasts until the next one:
//!
//!   %fn KEY [flags]      the function(s) whose key matches KEY (`*` is a wildcard); flags: trust drop opt
//!     %params a b c      canonical names of the parameters used in the text below
//!     %ret r             name of the result (default `res`)
//!     %attr TEXT         attributes put before the function
//!     %spec              requires / ensures / ... put before the body
//!     %pre               put at the start of the body
//!     %loop N [label]    invariants of the N-th loop
//!     %before N CALL     put before the statement which holds the N-th call to the function or method CALL
//!     %after N CALL      put after that statement
//!     %closure N         header of the N-th closure: `-> (r: T) ensures ..`
//!   %impl KEY            items added to the impl(s)
//!   %trait KEY           items added to the trait
//!   %mod PATH            items added to the module
//!   %drop KEY            the item is left out
//!   %fields KEY a b c    the fields the ghost code relies on
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnOv {
    pub key: String,
    pub flags: Vec<String>,
    pub params: Vec<String>,
    pub ret: Option<String>,
    pub attr: String,
    pub spec: String,
    pub pre: String,
    pub loops: BTreeMap<usize, String>,
    pub before: Vec<(usize, String, String)>,
    pub after: Vec<(usize, String, String)>,
    pub closures: BTreeMap<usize, String>,
    pub props: Vec<String>,
    pub used: std::cell::Cell<usize>,
}

#[derive(Default, Debug)]
pub struct Overlay {
    pub fns: Vec<FnOv>,
    pub impls: Vec<(String, String, std::cell::Cell<usize>)>,
    pub traits: Vec<(String, String, std::cell::Cell<usize>)>,
    pub mods: Vec<(String, String)>,
    pub drops: Vec<(String, std::cell::Cell<usize>)>,
    pub fields: Vec<(String, Vec<String>, std::cell::Cell<usize>)>,
    pub subst: Vec<(String, String, String)>,
    pub renames: Vec<(String, String, String)>,
    pub inlines: Vec<(String, String, String)>,
    /// property ids attached to keys: first match wins
    pub props: Vec<(String, Vec<String>)>,
    /// functions whose body is left out (the driver's fallback for code outside the verifier's reach)
    pub trusts: Vec<String>,
    pub lifts: Vec<(String, Vec<String>)>,
    pub splits: Vec<(String, usize)>,
    pub root: String,
}

enum Cur {
    None,
    FnSpec,
    FnPre,
    FnLoop(usize),
    FnBefore,
    FnAfter,
    FnClosure(usize),
    Impl,
    Trait,
    Mod,
    Root,
}

pub fn glob(pat: &str, s: &str) -> bool {
    fn go(p: &[u8], s: &[u8]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some(b'*') => (0..=s.len()).any(|i| go(&p[1..], &s[i..])),
            Some(c) => s.first() == Some(c) && go(&p[1..], &s[1..]),
        }
    }
    go(pat.as_bytes(), s.as_bytes())
}

impl Overlay {
    pub fn load(&mut self, text: &str, file: &str) {
        let mut cur = Cur::None;
        for (ln, line) in text.lines().enumerate() {
            let t = line.trim_start();
            if let Some(d) = t.strip_prefix('%') {
                let (word, rest) = match d.find(char::is_whitespace) {
                    Some(i) => (&d[..i], d[i..].trim()),
                    None => (d, ""),
                };
                match word {
                    "%" => continue, // comment
                    "fn" => {
                        // KEY is up to the first whitespace followed by flags in []
                        let (key, flags) = match rest.find(" [") {
                            Some(i) => (rest[..i].trim(), rest[i + 2..].trim_end_matches(']')),
                            None => (rest, ""),
                        };
                        self.fns.push(FnOv {
                            key: key.to_string(),
                            flags: flags.split_whitespace().map(String::from).collect(),
                            ..Default::default()
                        });
                        cur = Cur::None;
                    }
                    "params" => {
                        self.fns.last_mut().unwrap().params =
                            rest.split_whitespace().map(String::from).collect()
                    }
                    "ret" => self.fns.last_mut().unwrap().ret = Some(rest.to_string()),
                    "attr" => {
                        let f = self.fns.last_mut().unwrap();
                        f.attr.push_str(rest);
                        f.attr.push('\n');
                    }
                    "spec" => cur = Cur::FnSpec,
                    "pre" => cur = Cur::FnPre,
                    "loop" => {
                        let n = rest.parse().unwrap();
                        self.fns.last_mut().unwrap().loops.insert(n, String::new());
                        cur = Cur::FnLoop(n);
                    }
                    "before" | "after" => {
                        let mut it = rest.split_whitespace();
                        let n: usize = it.next().unwrap().parse().unwrap();
                        let name = it.next().unwrap().to_string();
                        let f = self.fns.last_mut().unwrap();
                        if word == "before" {
                            f.before.push((n, name, String::new()));
                            cur = Cur::FnBefore;
                        } else {
                            f.after.push((n, name, String::new()));
                            cur = Cur::FnAfter;
                        }
                    }
                    "closure" => {
                        let n = rest.parse().unwrap();
                        self.fns.last_mut().unwrap().closures.insert(n, String::new());
                        cur = Cur::FnClosure(n);
                    }
                    "impl" => {
                        self.impls.push((rest.to_string(), String::new(), Default::default()));
                        cur = Cur::Impl;
                    }
                    "trait" => {
                        self.traits.push((rest.to_string(), String::new(), Default::default()));
                        cur = Cur::Trait;
                    }
                    "mod" => {
                        self.mods.push((rest.to_string(), String::new()));
                        cur = Cur::Mod;
                    }
                    "root" => cur = Cur::Root,
                    "drop" => {
                        self.drops.push((rest.to_string(), Default::default()));
                        cur = Cur::None;
                    }
                    "fields" => {
                        let mut it = rest.split_whitespace();
                        let k = it.next().unwrap().to_string();
                        self.fields.push((k, it.map(String::from).collect(), Default::default()));
                        cur = Cur::None;
                    }
                    "subst" => {
                        let (a, b) = rest.split_once(" => ").expect("subst A => B");
                        let (b, k) = b.rsplit_once(" in ").unwrap_or((b, "*"));
                        self.subst.push((a.trim().to_string(), b.trim().to_string(), k.trim().to_string()));
                        cur = Cur::None;
                    }
                    "inline" => {
                        // inline METHOD KIND in KEY: `x.METHOD(closure)` on a KIND is its definition
                        let (b, k) = rest.split_once(" in ").expect("inline METHOD KIND in KEY");
                        let (m, t) = b.split_once(' ').expect("inline METHOD KIND in KEY");
                        self.inlines.push((m.trim().into(), t.trim().into(), k.trim().into()));
                        cur = Cur::None;
                    }
                    "rename" => {
                        // rename NAME => NEW in KEY: method calls in the matching functions
                        let (a, b) = rest.split_once(" => ").expect("rename A => B in KEY");
                        let (b, k) = b.split_once(" in ").expect("rename A => B in KEY");
                        self.renames.push((
                            a.trim().to_string(),
                            b.trim().to_string(),
                            k.trim().to_string(),
                        ));
                        cur = Cur::None;
                    }
                    "lift" => {
                        let mut it = rest.split_whitespace().map(String::from);
                        let k = it.next().unwrap();
                        self.lifts.push((k, it.collect()));
                        cur = Cur::None;
                    }
                    "split" => {
                        let (m, n) = rest.split_once(' ').unwrap();
                        self.splits.push((m.to_string(), n.trim().parse().unwrap()));
                        cur = Cur::None;
                    }
                    "trust" => {
                        self.trusts.push(rest.to_string());
                        cur = Cur::None;
                    }
                    "props" => {
                        let mut it = rest.split_whitespace();
                        let k = it.next().unwrap().to_string();
                        self.props.push((k, it.map(String::from).collect()));
                        cur = Cur::None;
                    }
                    _ => panic!("{file}:{}: unknown directive %{word}", ln + 1),
                }
                continue;
            }
            let push = |s: &mut String| {
                s.push_str(line);
                s.push('\n');
            };
            match &cur {
                Cur::None => {
                    if !t.is_empty() && !t.starts_with("//") {
                        panic!("{file}:{}: text outside of a block", ln + 1)
                    }
                }
                Cur::FnSpec => push(&mut self.fns.last_mut().unwrap().spec),
                Cur::FnPre => push(&mut self.fns.last_mut().unwrap().pre),
                Cur::FnLoop(n) => {
                    push(self.fns.last_mut().unwrap().loops.get_mut(n).unwrap())
                }
                Cur::FnBefore => push(&mut self.fns.last_mut().unwrap().before.last_mut().unwrap().2),
                Cur::FnAfter => push(&mut self.fns.last_mut().unwrap().after.last_mut().unwrap().2),
                Cur::FnClosure(n) => {
                    push(self.fns.last_mut().unwrap().closures.get_mut(n).unwrap())
                }
                Cur::Impl => push(&mut self.impls.last_mut().unwrap().1),
                Cur::Trait => push(&mut self.traits.last_mut().unwrap().1),
                Cur::Mod => push(&mut self.mods.last_mut().unwrap().1),
                Cur::Root => push(&mut self.root),
            }
        }
    }

    pub fn find_fn(&self, key: &str) -> Option<&FnOv> {
        // the most specific (longest) pattern wins
        let f = self
            .fns
            .iter()
            .filter(|f| glob(&f.key, key))
            .max_by_key(|f| f.key.chars().filter(|c| *c != '*').count());
        if let Some(f) = f {
            f.used.set(f.used.get() + 1);
        }
        f
    }
    pub fn dropped(&self, key: &str) -> bool {
        let mut r = false;
        for (k, u) in &self.drops {
            if glob(k, key) {
                u.set(u.get() + 1);
                r = true;
            }
        }
        r
    }
}
