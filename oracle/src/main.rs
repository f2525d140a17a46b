//! Bounded oracle: replays the properties against the real crate on generated cases.
//!
//!   vo check Cxx --seed N --ms BUDGET --out DIR      search for a violation of one property
//!   vo replay FILE                                   rerun a recorded case
mod derived;
mod gen;
mod model;
mod rec;
mod reg;
mod rng;
mod spec;
mod typed;

use gen::*;
use model::*;
use rec::*;
use reg::*;
use rng::Rng;
use scale_decode::visitor::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use typed::*;

#[derive(Default)]
struct Case {
    skipped: bool,
    nontrivial: bool,
    steps: u64,
    desc: String,
    viol: Vec<String>,
}

/// What a property's cases are made of.
struct Plan {
    core: bool,
    targets: List,
    knobs: Knobs,
    kinds: &'static [M],
}

fn plan(prop: &str) -> Plan {
    use M::*;
    let k = |wrap, compact, noise, bad, damage, depth| Knobs { wrap, compact, noise, bad, damage, depth };
    let all: &'static [M] = &[Value, Consumed, Kind, Locs];
    let some: &'static [M] = &[Value, Consumed, Kind];
    let (core, targets, knobs, kinds): (bool, List, Knobs, &'static [M]) = match prop {
        "C01" => (true, everything(), k(10, 10, 5, 0, 5, 3), &[Consumed]),
        "C02" => (true, everything(), k(10, 10, 5, 2, 60, 3), &[Malformed]),
        "C03" => (true, everything(), k(15, 10, 25, 4, 40, 3), &[]),
        "C04" | "C06" | "C07" | "C08" | "C09" | "C11" | "C12" | "C24" => (true, vec![], k(0, 0, 0, 0, 0, 0), &[]),
        "C05" => (true, vec![], k(0, 0, 0, 0, 0, 0), some),
        "C10" => (true, fields(), k(5, 5, 20, 2, 60, 2), &[Priority]),
        "C13" => (false, ints(), k(0, 0, 0, 0, 3, 2), some),
        "C14" => (false, transparent(), k(55, 4, 4, 1, 8, 3), some),
        "C15" => (false, options(), k(6, 0, 4, 0, 8, 3), some),
        "C16" => (false, collections(), k(6, 0, 4, 1, 15, 3), all),
        "C17" => (false, tuples(), k(4, 4, 6, 1, 8, 3), some),
        "C18" => (false, adapters(), k(15, 25, 4, 1, 8, 3), some),
        "C19" => (false, structs(), k(2, 4, 3, 1, 6, 3), some),
        "C20" => (false, enums(), k(5, 0, 3, 1, 6, 3), some),
        "C21" => (false, everything(), k(8, 5, 12, 2, 60, 4), &[Kind, Locs, Display]),
        "C22" => (false, fields(), k(3, 4, 5, 1, 12, 3), all),
        "C23" => (false, maps(), k(5, 3, 4, 1, 10, 3), all),
        _ => panic!("unknown property {prop}"),
    };
    Plan { core, targets, knobs, kinds }
}

/// Decode one value through visitors that check everything they are given.
fn core_case(prop: &str, seed: u64, size: u32) -> Case {
    let mut c = Case::default();
    let mut r = Rng::new(seed);
    let mut reg = Reg::new();
    let bad = match prop {
        "C24" => 25,
        _ => *r.pick(&[0, 0, 0, 3, 10]),
    };
    let d = 1 + r.below(size as usize) as u32;
    let id = {
        let mut g = G { reg: &mut reg, r: &mut r, bad, wrap: 0, compact: 0, noise: 0 };
        let focus = g.r.chance(75);
        match prop {
            "C05" if focus => {
                let t = if g.r.chance(60) { g.compactable(d) } else { g.ty(d) };
                g.reg.add(Ty::Compact(t))
            }
            "C06" if focus => if g.r.chance(50) { g.seq(d) } else { g.arr(d) },
            "C07" if focus => {
                let n = g.r.below(6);
                if g.r.chance(30) {
                    let ts = (0..n).map(|_| g.ty(d - 1)).collect();
                    g.reg.add(Ty::Tuple(ts))
                } else {
                    let f = g.fields(n, d - 1);
                    g.composite(f)
                }
            }
            "C08" if focus => g.variant_ty(d - 1),
            "C09" if focus => match g.r.below(5) {
                0 => g.seq(d),
                1 => g.arr(d),
                2 => {
                    let t = g.compactable(3);
                    g.reg.add(Ty::Compact(t))
                }
                3 => {
                    let ts = (0..g.r.below(5)).map(|_| g.ty(d - 1)).collect();
                    g.reg.add(Ty::Tuple(ts))
                }
                _ => {
                    let n = g.r.below(5);
                    let f = g.fields(n, d - 1);
                    g.composite(f)
                }
            },
            "C11" if focus => if g.r.chance(50) { g.bits() } else { g.reg.prim(scale_type_resolver::Primitive::Str) },
            "C04" if focus => if g.r.chance(15) { g.bits() } else { g.prim() },
            _ => g.ty(d),
        }
    };
    let damage = if prop == "C02" { 60 } else { *r.pick(&[0, 20, 50]) };
    let bytes = bytes_for(&reg, &mut r, &id, damage);
    let cx = Cx::new(&reg, FUEL);
    let whole = cx.len(&id, false, &bytes);
    cx.fuel.set(u32::MAX);
    if whole == Err(PErr::Fuel) || cx.chain(&id, false).is_none() {
        c.skipped = true;
        return c;
    }
    c.desc = format!("type {:?} from {:02x?}", id, &bytes[..bytes.len().min(96)]);
    c.nontrivial = !bytes.is_empty();
    let mut viol: Vec<(Props, String)> = vec![];

    // The visitor that ignores everything.
    {
        let mut s = &bytes[..];
        let got = decode_with_visitor(&mut s, id.clone(), &reg, IgnoreVisitor::<Reg>::new());
        match (&got, &whole) {
            (Ok(()), Ok(n)) => {
                if bytes.len() - s.len() != *n || s.as_ptr_range().end != bytes.as_ptr_range().end {
                    viol.push((&["C01"], format!("skipping consumed {} bytes instead of {n}", bytes.len() - s.len())));
                }
            }
            (Err(d), Err(p)) if perr_matches(p, d) => {
                if matches!(p, PErr::NotFound(_) | PErr::Unhandled(_) | PErr::Resolving(_)) && cx.head(&id, false, &bytes).is_err() && s.len() != bytes.len() {
                    viol.push((&["C24"], "unresolvable, but the input was advanced".into()));
                }
            }
            (g, Err(p)) => {
                let t: Props = match p {
                    PErr::NotFound(_) | PErr::Unhandled(_) | PErr::Resolving(_) => &["C24", "C02"],
                    PErr::Compact => &["C05", "C02"],
                    PErr::NoVariant(_) => &["C08", "C02"],
                    _ => &["C02"],
                };
                viol.push((t, format!("skipping gave {g:?}, expected {p:?}")))
            }
            (g, w) => viol.push((&["C02", "C01"], format!("skipping gave {g:?}, expected {w:?}"))),
        }
        c.steps += 1;
    }
    // Only the catch-all callback; and none.
    if r.chance(25) {
        let seen = RefCell::new(vec![]);
        let head = cx.head(&id, false, &bytes);
        let mut s = &bytes[..];
        let got = decode_with_visitor(&mut s, id.clone(), &reg, Catch(&seen));
        let got2 = decode_with_visitor(&mut &bytes[..], id.clone(), &reg, Nothing);
        if let Ok(h) = &head {
            let k = head_kind(h);
            if *seen.borrow() != vec![k] {
                viol.push((&["C04", "C12"], format!("the catch-all callback saw {:?} instead of {k:?}", seen.borrow())));
            }
            if got.is_ok() != whole.is_ok() {
                viol.push((&["C10", "C02"], format!("catch-all visitor got {got:?}, the value is {whole:?}")));
            }
            if !matches!(&got2, Err(RErr::Dec(DecodeError::Unexpected(u))) if *u == k) {
                viol.push((&["C04", "C10"], format!("visitor without callbacks got {got2:?} instead of Unexpected({k:?})")));
            }
        } else if !seen.borrow().is_empty() {
            viol.push((&["C24", "C02"], "callback although the value cannot be read".into()));
        }
    }
    // Everything else, in the recording visitor.
    let rr = Rng::new(r.next());
    let ctx = {
        let mut x = Ctx::new(&reg, rr.clone());
        x.take = match prop {
            "C12" => 15,
            _ => 2,
        };
        if prop == "C10" {
            x.inject = 15;
        }
        x
    };
    let mut left = &bytes[..];
    let f = {
        let mut f = Frame::new(&ctx, &id, false, &bytes);
        if prop == "C12" && r.chance(30) {
            std::rc::Rc::get_mut(&mut f).unwrap().may_move = true;
        }
        f
    };
    let res = decode_with_visitor(&mut left, id.clone(), &reg, Rec { ctx: &ctx, f: f.clone(), tag: 0 });
    judge(&ctx, &f, &res, Some(left));
    c.steps += ctx.steps.get();
    viol.append(&mut ctx.viol.borrow_mut());
    // The adapter that converts errors: the same calls, the same answer but for the error's type.
    if (prop == "C12" || r.chance(10)) && !f.may_move {
        let mut ctx2 = Ctx::new(&reg, rr);
        ctx2.take = ctx.take;
        ctx2.inject = ctx.inject;
        let f2 = Frame::new(&ctx2, &id, false, &bytes);
        let mut left2 = &bytes[..];
        let res2 = decode_with_visitor(&mut left2, id.clone(), &reg, VisitorWithCrateError(Rec { ctx: &ctx2, f: f2.clone(), tag: 0 }));
        let a = format!("{:?}", res.map_err(|e| scale_decode::Error::from(e).to_string()));
        let b = format!("{:?}", res2.map_err(|e| e.to_string()));
        if a != b || left.len() != left2.len() || f.calls != f2.calls {
            viol.push((&["C12"], format!("through VisitorWithCrateError: {b} leaving {}, directly {a} leaving {}", left2.len(), left.len())));
        }
        if !ctx2.viol.borrow().is_empty() {
            viol.push((&["C12"], format!("through VisitorWithCrateError: {}", ctx2.viol.borrow()[0].1)));
        }
    }
    // Several values after one another.
    if prop == "C01" {
        if let Ok(n) = &whole {
            let mut many = vec![];
            let k = 1 + r.below(4);
            for _ in 0..k {
                many.extend_from_slice(&bytes[..*n]);
            }
            many.extend_from_slice(&bytes[*n..]);
            // (bytes after a value never matter to it)
            let mut s = &many[..];
            for i in 0..k {
                let at = many.len() - s.len();
                if at != i * n || decode_with_visitor(&mut s, id.clone(), &reg, IgnoreVisitor::<Reg>::new()).is_err() {
                    viol.push((&["C01"], format!("value {i} of {k} in a row not found at its place")));
                    break;
                }
            }
        }
    }
    for (p, m) in viol {
        if p.contains(&prop) {
            c.viol.push(m);
        }
    }
    if !c.viol.is_empty() {
        c.desc += &format!(" in {:?}", reg.tys);
    }
    c
}

/// Facts that need no generated type.
fn fixed_cases(prop: &str, r: &mut Rng) -> Vec<String> {
    let mut v = vec![];
    if prop == "C12" {
        let (a, b) = (r.next(), r.next());
        let d: DecodeAsTypeResult<u64, u64> = DecodeAsTypeResult::Decoded(a);
        if !matches!(d.map_decoded(|x| x ^ b), DecodeAsTypeResult::Decoded(x) if x == a ^ b) {
            v.push("map_decoded does not map Decoded".into());
        }
        let d: DecodeAsTypeResult<u64, u64> = DecodeAsTypeResult::Skipped(a);
        if !matches!(d.map_decoded(|x| x ^ b), DecodeAsTypeResult::Skipped(x) if x == a) {
            v.push("map_decoded touches Skipped".into());
        }
        let d: DecodeAsTypeResult<u64, u64> = DecodeAsTypeResult::Skipped(a);
        if !matches!(d.map_skipped(|x| x ^ b), DecodeAsTypeResult::Skipped(x) if x == a ^ b) {
            v.push("map_skipped does not map Skipped".into());
        }
        let d: DecodeAsTypeResult<u64, u64> = DecodeAsTypeResult::Decoded(a);
        if !matches!(d.map_skipped(|x| x ^ b), DecodeAsTypeResult::Decoded(x) if x == a) {
            v.push("map_skipped touches Decoded".into());
        }
    }
    if prop == "C21" {
        use scale_decode::error::*;
        let mut locs = vec![];
        let mut e = Error::new(ErrorKind::NumberOutOfRange { value: "77".into() });
        let mut ctx = Context::new();
        let mut shown = vec![];
        for i in 0..r.below(7) {
            let name = format!("n{}", r.below(50));
            let l = match r.below(5) {
                0 => {
                    let k = r.below(1000);
                    shown.push(k.to_string());
                    e = e.at_idx(k);
                    Location::idx(k)
                }
                1 => {
                    shown.push(name.clone());
                    e = e.at_field(name.clone());
                    Location::field(name)
                }
                2 => {
                    shown.push(name.clone());
                    e = e.at_variant(name.clone());
                    Location::variant(name)
                }
                3 => {
                    shown.push(format!("{i}"));
                    e = e.at(Location::idx(i));
                    Location::idx(i)
                }
                _ => {
                    shown.push(name.clone());
                    e = e.at(Location::field(name.clone()));
                    Location::field(name)
                }
            };
            ctx.push(l.clone());
            locs.push(l);
        }
        let path = e.context().path().into_owned();
        if !path.locations().eq(locs.iter()) || !ctx.path().locations().eq(locs.iter()) || !ctx.clone().path().locations().eq(locs.iter()) {
            v.push(format!("locations {locs:?} are kept as {:?}", e.context()));
        }
        if !matches!(e.kind(), ErrorKind::NumberOutOfRange { value } if value == "77") {
            v.push(format!("the cause became {:?}", e.kind()));
        }
        let text = e.to_string();
        let (mut from, mut n) = (0, 0);
        while n < shown.len() {
            match text[from..].find(&shown[n]) {
                Some(k) => from += k + shown[n].len(),
                None => break,
            }
            n += 1;
        }
        if n < shown.len() || !text[from..].contains("77") {
            v.push(format!("'{text}' does not show {shown:?} and the cause"));
        }
    }
    v
}

fn run_case(prop: &str, p: &Plan, seed: u64, size: u32) -> Case {
    let mut pick = Rng::new(seed ^ 0x5bd1);
    let mut c = if p.core && (p.targets.is_empty() || pick.chance(60)) {
        core_case(prop, seed, size)
    } else {
        let (name, run) = *pick.pick(&p.targets);
        let mut k = p.knobs.clone();
        if pick.chance(40) {
            // quieter: the clean cases
            k.damage = 0;
            k.noise = 0;
            k.bad = 0;
        }
        k.depth = k.depth.min(size.max(1));
        let o = run(&k, seed);
        let mut c = Case { skipped: o.skipped, nontrivial: !o.skipped, steps: o.steps, desc: format!("[{name}] {}", o.desc), viol: vec![] };
        for (m, t) in o.viol {
            // a panic-only property has no kinds
            if p.kinds.contains(&m) {
                c.viol.push(t)
            }
        }
        c
    };
    for m in fixed_cases(prop, &mut pick) {
        c.viol.push(m);
    }
    c
}

/// The case that is being run, on disk: an abort leaves nothing else behind.
static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);
static CURRENT: AtomicU64 = AtomicU64::new(0);
static SINCE: Mutex<Option<Instant>> = Mutex::new(None);
static PANIC: Mutex<String> = Mutex::new(String::new());

fn one(prop: &str, p: &Plan, seed: u64, size: u32) -> Case {
    CURRENT.store(seed, Ordering::SeqCst);
    if let Some(f) = &*TRACE.lock().unwrap() {
        use std::os::unix::fs::FileExt;
        let _ = f.write_all_at(format!("property={prop}\ncase={seed:<24}\nsize={size:<8}\n").as_bytes(), 0);
    }
    *SINCE.lock().unwrap() = Some(Instant::now());
    let r = catch_unwind(AssertUnwindSafe(|| run_case(prop, p, seed, size)));
    *SINCE.lock().unwrap() = None;
    if r.is_err() && PANIC.lock().unwrap().contains(reg::ENDLESS) {
        return Case { skipped: true, ..Default::default() };
    }
    r.unwrap_or_else(|_| Case {
        desc: "(the case panicked)".into(),
        viol: vec![format!("panic: {}", PANIC.lock().unwrap())],
        ..Default::default()
    })
}

fn write_replay(dir: &str, prop: &str, seed: u64, size: u32, c: &Case) -> String {
    let path = format!("{dir}/{prop}-{seed:016x}.txt");
    let _ = std::fs::create_dir_all(dir);
    let mut t = format!("property={prop}\ncase={seed}\nsize={size}\n");
    t += &format!("input: {}\n", c.desc);
    for v in &c.viol {
        t += &format!("violation: {v}\n");
    }
    t += "rerun: ./check replay <this file>\n";
    let _ = std::fs::write(&path, t);
    path
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|i| {
        *PANIC.lock().unwrap() = i.to_string();
    }));
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = args[2].clone();
            let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let ms: u64 = opt("--ms").and_then(|s| s.parse().ok()).unwrap_or(5000);
            let dir = opt("--out").unwrap_or("/tmp".into());
            if let Some(t) = opt("--trace") {
                *TRACE.lock().unwrap() = std::fs::File::create(t).ok();
            }
            std::process::exit(search(prop, seed, ms, dir));
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
            let prop = get("property=").expect("property");
            let seed = get("case=").expect("case").parse().unwrap();
            let size = get("size=").expect("size").parse().unwrap();
            let prop2 = prop.clone();
            let c = std::thread::Builder::new().stack_size(1 << 28).spawn(move || one(&prop2, &plan(&prop2), seed, size)).unwrap().join().unwrap();
            println!("{}", c.desc);
            for v in &c.viol {
                println!("violation of {prop}: {v}");
            }
            std::process::exit(if c.viol.is_empty() { 0 } else { 1 });
        }
        _ => panic!("usage"),
    }
}

fn search(prop: String, seed: u64, ms: u64, dir: String) -> i32 {
    let base = Rng::new(seed.wrapping_mul(0x1000_0000_01b3)).next();
    {
        // A case that does not come back is a failure too.
        let (prop, dir) = (prop.clone(), dir.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = *SINCE.lock().unwrap();
            if s.is_some_and(|s| s.elapsed() > Duration::from_secs(25)) {
                let seed = CURRENT.load(Ordering::SeqCst);
                let c = Case { desc: "(the case does not terminate)".into(), viol: vec!["no answer within 25 s".into()], ..Default::default() };
                let path = write_replay(&dir, &prop, seed, 4, &c);
                println!("VIOLATION {path}");
                std::process::exit(1);
            }
        });
    }
    let handle = std::thread::Builder::new()
        .stack_size(1 << 28)
        .spawn(move || {
            let p = plan(&prop);
            let t0 = Instant::now();
            let (mut n, mut skipped, mut steps, mut i) = (0u64, 0u64, 0u64, 0u64);
            let mut distinct = HashSet::new();
            let mut samples: Vec<String> = vec![];
            while t0.elapsed() < Duration::from_millis(ms) {
                let size = if i < 2000 { 1 + (i / 700) as u32 } else { 3 + (i % 2) as u32 };
                let cs = base.wrapping_add(i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
                i += 1;
                let c = one(&prop, &p, cs, size);
                if !c.viol.is_empty() {
                    let path = write_replay(&dir, &prop, cs, size, &c);
                    println!("VIOLATION {path}");
                    println!("  {}", c.desc);
                    for v in c.viol.iter().take(5) {
                        println!("  {v}");
                    }
                    return 1;
                }
                if c.skipped {
                    skipped += 1;
                    continue;
                }
                n += 1;
                steps += c.steps;
                if c.nontrivial {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    c.desc.hash(&mut h);
                    distinct.insert(h.finish());
                }
                if samples.len() < 3 && i % 97 == 0 && c.nontrivial {
                    samples.push(c.desc.chars().take(300).collect());
                }
            }
            println!("STATS evaluations={n} skipped={skipped} comparisons={steps} distinct={}", distinct.len());
            for s in samples {
                println!("SAMPLE {s}");
            }
            0
        })
        .unwrap();
    match handle.join() {
        Ok(r) => r,
        Err(_) => {
            println!("INTERNAL {}", PANIC.lock().unwrap());
            3
        }
    }
}
