//! vx: takes the crate as rustc itself expands it (`-Zunpretty=expanded`), keeps the text of its functions and
//! puts contracts from the overlay on them, so that Verus can check them. See DESIGN.md for what is dropped and
//! which rewrites are applied.
mod lift;
mod overlay;
mod rewrite;
use overlay::*;
use rewrite::*;
use serde_json::json;
use syn::spanned::Spanned;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() < 4 {
        eprintln!("usage: vx EXPANDED.rs OUT.rs REPORT.json OVERLAY...");
        std::process::exit(2)
    }
    let src = std::fs::read_to_string(&args[0]).expect("expanded source");
    let mut ov = Overlay::default();
    for f in &args[3..] {
        ov.load(&std::fs::read_to_string(f).expect(f), f);
    }
    let parse = |src: &str| match syn::parse_file(src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("cannot parse the expanded source: {e} at {:?}", e.span().start());
            std::process::exit(3)
        }
    };
    let mut file = parse(&src);
    let mut src = src;
    let mut unlifted = vec![];
    for (k, tys) in &ov.lifts {
        match lift::lift(&src, &file, k, tys) {
            Ok((a, b, t)) => {
                src.replace_range(a..b, &t);
                file = parse(&src);
            }
            Err(e) => unlifted.push(format!("iterator {k}: {e}")),
        }
    }
    let mut cx = Cx::new(&src, &ov);
    cx.lost.append(&mut unlifted);
    cx.collect_traits(&file.items, "");
    let mut out = String::new();
    out.push_str(&ov.root);
    cx.items(&file.items, "", &mut out);
    if let Some(t) = cx.mod_text("crate") {
        out.push_str(&t);
    }
    out.push_str("\n} // verus!\nfn main() {}\n");

    // line ranges of functions
    let mut fns = vec![];
    let mut stack: Vec<(String, usize)> = vec![];
    for (i, l) in out.lines().enumerate() {
        let mut rest = l;
        while let Some(p) = rest.find("/*@") {
            let q = rest[p..].find("@*/").map(|q| p + q);
            let Some(q) = q else { break };
            let tok = &rest[p + 3..q];
            if let Some(k) = tok.strip_prefix("F:") {
                stack.push((k.to_string(), i + 1));
            } else if tok == "E" {
                if let Some((k, s)) = stack.pop() {
                    let info = cx.infos.get(&k).cloned().unwrap_or_default();
                    fns.push(json!({"key": k, "start": s, "end": i + 1, "contract": info.contract,
                        "trusted": info.trusted, "trait_impl": info.trait_impl, "src_line": info.line, "defaulted": info.defaulted, "open": [info.open.0, info.open.1]}));
                }
            }
            rest = &rest[q + 3..];
        }
    }
    for f in &ov.fns {
        if f.used.get() == 0 && !f.flags.iter().any(|x| x == "opt") {
            cx.lost.push(format!("function {}", f.key));
        }
    }
    for (k, _, u) in &ov.impls {
        if u.get() == 0 {
            cx.lost.push(format!("impl {k}"));
        }
    }
    for (k, _, u) in &ov.traits {
        if u.get() == 0 {
            cx.lost.push(format!("trait {k}"));
        }
    }
    for (k, _, u) in &ov.fields {
        if u.get() == 0 {
            cx.lost.push(format!("struct {k}"));
        }
    }
    std::fs::write(&args[1], &out).unwrap();
    let props: Vec<_> = ov.props.iter().map(|(k, p)| json!([k, p])).collect();
    std::fs::write(
        &args[2],
        serde_json::to_string_pretty(&json!({"fns": fns, "lost": cx.lost, "dropped": cx.dropped, "notes": cx.notes, "props": props}))
            .unwrap(),
    )
    .unwrap();
}

#[allow(dead_code)]
fn unused(s: &impl Spanned) {
    let _ = s.span();
}
