//! A visitor that checks, at every callback, everything the crate hands it against the reference
//! semantics, and drives the item views in randomly chosen ways.
#![allow(unused_variables)]
use crate::model::*;
use crate::reg::*;
use crate::rng::Rng;
use scale_decode::visitor::types::*;
use scale_decode::visitor::*;
use scale_decode::DecodeAsType;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub trait ResOk {
    type Ok;
}
impl<T, E> ResOk for Result<T, E> {
    type Ok = T;
}
pub type SequenceItem<'s, 'r, R> = <<Sequence<'s, 'r, R> as Iterator>::Item as ResOk>::Ok;
pub type ArrayItem<'s, 'r, R> = <<Array<'s, 'r, R> as Iterator>::Item as ResOk>::Ok;
pub type CompositeField<'s, 'r, R> = <<Composite<'s, 'r, R> as Iterator>::Item as ResOk>::Ok;
pub type TupleField<'s, 'r, R> = <<Tuple<'s, 'r, R> as Iterator>::Item as ResOk>::Ok;

pub type Props = &'static [&'static str];

pub struct Ctx<'c> {
    pub cx: Cx<'c>,
    pub r: RefCell<Rng>,
    pub viol: RefCell<Vec<(Props, String)>>,
    pub tok: Cell<u64>,
    pub budget: Cell<i32>,
    /// percentage of callbacks that return an error of their own
    pub inject: u32,
    /// percentage of offers that are taken over
    pub take: u32,
    pub steps: Cell<u64>,
}
impl<'c> Ctx<'c> {
    pub fn new(reg: &'c Reg, r: Rng) -> Self {
        Ctx {
            cx: Cx::new(reg, u32::MAX), r: RefCell::new(r), viol: RefCell::default(), tok: Cell::new(1),
            budget: Cell::new(120), inject: 4, take: 3, steps: Cell::new(0),
        }
    }
    pub fn bad(&self, p: Props, m: impl FnOnce() -> String) {
        self.viol.borrow_mut().push((p, m()));
    }
    pub fn ensure(&self, p: Props, ok: bool, m: impl FnOnce() -> String) {
        self.steps.set(self.steps.get() + 1);
        if !ok {
            self.bad(p, m)
        }
    }
    pub fn fresh(&self) -> u64 {
        let t = self.tok.get();
        self.tok.set(t + 1);
        t
    }
    pub fn chance(&self, p: u32) -> bool {
        self.r.borrow_mut().chance(p)
    }
    pub fn below(&self, n: usize) -> usize {
        self.r.borrow_mut().below(n)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RErr {
    Dec(DecodeError),
    Inj(u64),
}
impl From<DecodeError> for RErr {
    fn from(d: DecodeError) -> Self {
        RErr::Dec(d)
    }
}
impl From<RErr> for scale_decode::Error {
    fn from(e: RErr) -> Self {
        match e {
            RErr::Dec(d) => scale_decode::Error::from(d).at_field("converted"),
            RErr::Inj(n) => scale_decode::Error::custom_string(format!("injected {n}")),
        }
    }
}
pub type Tok = u64;

/// One decode call: what is to be decoded, and what was seen of it.
pub struct Frame<'s> {
    pub chain: Vec<Tid>,
    pub c0: bool,
    pub bytes: Cell<&'s [u8]>,
    pub head: RefCell<Result<Head, PErr>>,
    pub unchecked: Cell<usize>,
    pub calls: Cell<u32>,
    pub ret: RefCell<Option<Result<Tok, RErr>>>,
    pub took: RefCell<Option<(Result<Tok, RErr>, usize, u32)>>,
    /// may the visitor move the input before declining?
    pub may_move: bool,
    pub tag: Cell<u64>,
}
impl<'s> Frame<'s> {
    pub fn new(ctx: &Ctx, id: &Tid, c: bool, bytes: &'s [u8]) -> Rc<Self> {
        let (chain, _) = ctx.cx.chain(id, c).expect("generator makes no endless compact chain");
        Rc::new(Frame {
            chain, c0: c, bytes: Cell::new(bytes), head: RefCell::new(ctx.cx.head(id, c, bytes)),
            unchecked: Cell::new(0), calls: Cell::new(0), ret: RefCell::new(None), took: RefCell::new(None),
            may_move: false, tag: Cell::new(0),
        })
    }
    pub fn desc(&self) -> String {
        let b = self.bytes.get();
        format!("decoding {:?} compact={} from {:02x?}", self.chain, self.c0, &b[..b.len().min(48)])
    }
}

/// Tags for a discrepancy concerning this head.
fn tags(h: &Result<Head, PErr>, compact: bool) -> Props {
    match h {
        Err(PErr::NotFound(_) | PErr::Unhandled(_) | PErr::Resolving(_)) => &["C24"],
        Err(PErr::Compact) => &["C05"],
        Err(PErr::NoVariant(_)) => &["C08", "C02"],
        Err(PErr::Codec) if compact => &["C05", "C02"],
        Err(_) => &["C02"],
        Ok(Head::Leaf(..)) if compact => &["C05"],
        Ok(Head::Leaf(..)) => &["C04"],
        Ok(Head::Str { .. } | Head::Bits { .. }) => &["C04", "C11"],
        Ok(Head::Items(it)) => match it.kind {
            Kind::Sequence | Kind::Array => &["C06"],
            Kind::Variant => &["C08"],
            _ if compact => &["C05", "C07"],
            _ => &["C07"],
        },
    }
}

fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && (a.as_ptr() == b.as_ptr() || a.is_empty() && a == b)
}

/// Compare what a decode call returned with what it had to return.
pub fn judge<'s>(ctx: &Ctx, f: &Frame<'s>, res: &Result<Tok, RErr>, left: Option<&[u8]>) {
    if let Some((r, pos, resolves)) = &*f.took.borrow() {
        ctx.ensure(&["C12"], res == r, || format!("{}: the visitor took over with {r:?}, but got {res:?}", f.desc()));
        ctx.ensure(&["C12"], f.calls.get() == 0, || format!("{}: callback after the visitor took over", f.desc()));
        ctx.ensure(&["C12"], ctx.cx.reg.resolves.get() == *resolves, || {
            format!("{}: a type was resolved although the visitor took over", f.desc())
        });
        if let Some(l) = left {
            ctx.ensure(&["C12", "C01"], same(l, &f.bytes.get()[*pos..]), || {
                format!("{}: input not left where the visitor that took over put it", f.desc())
            });
        }
        return;
    }
    ctx.ensure(&["C12"], f.unchecked.get() == f.chain.len(), || {
        format!("{}: the visitor was offered the decoding {} times, not {}", f.desc(), f.unchecked.get(), f.chain.len())
    });
    let bytes = f.bytes.get();
    let head = f.head.borrow();
    let compact = f.chain.len() > 1 || f.c0;
    let tg = tags(&head, compact);
    match &*head {
        Err(p) => {
            ctx.ensure(tg, f.calls.get() == 0, || format!("{}: callback although {p:?}", f.desc()));
            let ok = matches!(res, Err(RErr::Dec(d)) if perr_matches(p, d));
            ctx.ensure(tg, ok, || format!("{}: expected failure {p:?}, got {res:?}", f.desc()));
            if matches!(res, Ok(_)) {
                ctx.bad(&["C02"], || format!("{}: expected failure {p:?}, got {res:?}", f.desc()));
            }
            if let (Some(l), PErr::NotFound(_) | PErr::Unhandled(_) | PErr::Resolving(_)) = (left, p) {
                ctx.ensure(&["C24"], same(l, bytes), || format!("{}: unresolvable, but input advanced", f.desc()));
            }
        }
        Ok(h) => {
            ctx.ensure(tg, f.calls.get() == 1, || {
                format!("{}: {} callbacks instead of one ({:?}); result {res:?}", f.desc(), f.calls.get(), head_kind(h))
            });
            match &*f.ret.borrow() {
                None => {
                    // it had to reach the callback
                    ctx.bad(tg, || format!("{}: no callback, result {res:?}", f.desc()));
                    if ctx.cx.rest(h, bytes).is_ok() {
                        ctx.bad(&["C02", "C01"], || format!("{}: well-formed, but {res:?}", f.desc()));
                    }
                }
                Some(Err(e)) => {
                    ctx.ensure(&["C10"], res == &Err(e.clone()), || {
                        format!("{}: the visitor's error was {e:?}, but got {res:?}", f.desc())
                    });
                }
                Some(Ok(t)) => match ctx.cx.rest(h, bytes) {
                    Ok(n) => {
                        ctx.ensure(&["C01", "C02", "C10", "C04"], res == &Ok(*t), || {
                            format!("{}: well-formed and visited with {t}, but got {res:?}", f.desc())
                        });
                        if let (Some(l), Ok(_)) = (left, res) {
                            ctx.ensure(&["C01"], same(l, &bytes[n..]), || {
                                format!("{}: {} bytes consumed instead of {n}", f.desc(), bytes.len() as isize - l.len() as isize)
                            });
                            if !matches!(h, Head::Leaf(..)) {
                                ctx.ensure(tg, same(l, &bytes[n..]), || format!("{}: wrong number of bytes consumed", f.desc()));
                            }
                        }
                    }
                    Err(p) => {
                        ctx.ensure(&["C02", "C10"], matches!(res, Err(RErr::Dec(d)) if perr_matches(&p, d)), || {
                            format!("{}: the rest is malformed ({p:?}), but got {res:?}", f.desc())
                        });
                    }
                },
            }
        }
    }
}

pub struct Rec<'c, 's> {
    pub ctx: &'c Ctx<'c>,
    pub f: Rc<Frame<'s>>,
    pub tag: u64,
}

/// Make a frame and a visitor for one decode call.
pub fn sub<'c, 's>(ctx: &'c Ctx<'c>, id: &Tid, c: bool, b: &'s [u8]) -> (Rc<Frame<'s>>, Rec<'c, 's>) {
    let f = Frame::new(ctx, id, c, b);
    (f.clone(), Rec { ctx, f, tag: 0 })
}

impl<'c, 's> Rec<'c, 's> {
    fn enter(&self, k: Unexpected, id: &Tid) -> Option<Head> {
        let f = &self.f;
        f.calls.set(f.calls.get() + 1);
        let head = f.head.borrow();
        let compact = f.chain.len() > 1 || f.c0;
        let tg = tags(&head, compact);
        self.ctx.ensure(&["C12"], self.tag == f.tag.get(), || {
            format!("{}: the visitor handed back when declining is not the one called", f.desc())
        });
        self.ctx.ensure(tg, Some(id) == f.chain.last(), || {
            format!("{}: type ID {id:?} handed to the callback", f.desc())
        });
        match &*head {
            Ok(h) if head_kind(h) == k => Some(h.clone()),
            Ok(h) => {
                self.ctx.bad(tg, || format!("{}: callback {k:?} instead of {:?}", f.desc(), head_kind(h)));
                None
            }
            Err(p) => {
                self.ctx.bad(tg, || format!("{}: callback {k:?} although {p:?}", f.desc()));
                None
            }
        }
    }
    fn done(&self, e: Option<RErr>) -> Result<Tok, RErr> {
        let r = match e {
            Some(e) => Err(e),
            None if self.ctx.chance(self.ctx.inject) => Err(RErr::Inj(self.ctx.fresh())),
            None => Ok(self.ctx.fresh()),
        };
        *self.f.ret.borrow_mut() = Some(r.clone());
        r
    }
    fn leaf(self, k: Unexpected, v: LeafVal, id: Tid) -> Result<Tok, RErr> {
        if let Some(Head::Leaf(_, w, _)) = self.enter(k, &id) {
            let compact = self.f.chain.len() > 1 || self.f.c0;
            self.ctx.ensure(if compact { &["C05"] } else { &["C04"] }, v == w, || {
                format!("{}: value {v:?} instead of {w:?}", self.f.desc())
            });
        }
        self.done(None)
    }

    /// Drive the items of a container. `b` is the input from the first item on.
    fn items<'x, 'r, C: Cont<'x, 'r>>(&self, it: &Items, b: &[u8], c: &mut C, depth: u32) -> Option<RErr> {
        let ctx = self.ctx;
        let seq = matches!(it.kind, Kind::Sequence | Kind::Array);
        let tg: Props = if seq { &["C06"] } else if it.kind == Kind::Variant { &["C07", "C08"] } else { &["C07"] };
        let tg1: Props = if seq { &["C06", "C01"] } else { &["C07", "C01"] };
        let desc = |w: &str, i: usize| format!("{}: {w} at item {i} of {} ({:?})", self.f.desc(), it.count, it.kind);
        let mut i = 0;
        let mut off = 0;
        let mut views: Vec<(C::View, usize, usize, usize)> = vec![];
        let mut err: Option<RErr> = None;
        let style = ctx.below(6);
        let limit = match style {
            0 => 0,
            1 => ctx.below(it.count.min(6) + 1),
            _ => 24,
        };
        loop {
            ctx.ensure(tg, c.remaining() == it.count - i, || {
                desc(&format!("remaining() is {} instead of {}", c.remaining(), it.count - i), i)
            });
            ctx.ensure(tg1, same(c.undecoded(), &b[off..]), || desc("bytes_from_undecoded() is wrong", i));
            c.peek(ctx, it, i, &desc);
            if i == it.count {
                if ctx.chance(60) {
                    let (f, v) = sub(ctx, &Tid(0), false, &[]);
                    let got = c.dec(v, ctx.chance(50));
                    ctx.ensure(tg, got.is_none() && f.calls.get() == 0, || desc("an item too many", i));
                    ctx.ensure(tg, c.next_view().is_none(), || desc("an item too many from the iterator", i));
                    ctx.ensure(tg, c.remaining() == 0, || desc("remaining() is not 0 at the end", i));
                }
                break;
            }
            if i >= limit || ctx.budget.get() <= 0 {
                break;
            }
            ctx.budget.set(ctx.budget.get() - 1);
            let id = it.id(i);
            let want = ctx.cx.len(id, it.compact, &b[off..]);
            let act = match style {
                2 => 0,
                3 => 2,
                4 => *ctx.r.borrow_mut().pick(&[1, 1, 2, 0]),
                _ => *ctx.r.borrow_mut().pick(&[0, 0, 1, 2, 2, 3, 4]),
            };
            match act {
                0 | 1 => {
                    let (f, v) = sub(ctx, id, it.compact, &b[off..]);
                    let Some(r) = c.dec(v, act == 1) else {
                        ctx.bad(tg, || desc("decode_item returned None", i));
                        break;
                    };
                    judge(ctx, &f, &r, None);
                    match (r, want) {
                        (Ok(_), Ok(n)) => {
                            off += n;
                            i += 1;
                        }
                        (Ok(_), Err(_)) => break, // judged already
                        (Err(e), _) => {
                            err = Some(e);
                            self.after_failure(it, i, off, b, c, tg);
                            break;
                        }
                    }
                }
                2 => match (c.next_view(), want) {
                    (None, _) => {
                        ctx.bad(tg, || desc("the iterator ended early", i));
                        ctx.bad(&["C09"], || desc("the iterator ended early", i));
                        break;
                    }
                    (Some(Ok(v)), Ok(n)) => {
                        let vb = v.bytes();
                        ctx.ensure(&["C09"], same(vb, &b[off..off + n]), || {
                            desc(&format!("item view has bytes {:02x?} instead of {:02x?}", vb, &b[off..off + n]), i)
                        });
                        ctx.ensure(&["C09", "C06", "C07"], v.id() == *id, || desc(&format!("item view has type {:?}", v.id()), i));
                        if let Some(nm) = v.name() {
                            ctx.ensure(&["C09", "C07"], nm == it.name(i), || desc(&format!("item view has name {nm:?}"), i));
                        }
                        if let Some(cc) = v.compact() {
                            ctx.ensure(&["C09", "C05"], cc == it.compact, || desc(&format!("item view has is_compact {cc}"), i));
                        }
                        views.push((v, i, off, n));
                        off += n;
                        i += 1;
                    }
                    (Some(Err(d)), Err(p)) => {
                        ctx.ensure(&["C09", "C02"], perr_matches(&p, &d), || desc(&format!("iterator error {d:?}, expected {p:?}"), i));
                        err = Some(RErr::Dec(d));
                        self.after_failure(it, i, off, b, c, tg);
                        break;
                    }
                    (Some(r), w) => {
                        let m = match r {
                            Ok(v) => format!("Ok({:02x?})", v.bytes()),
                            Err(d) => format!("Err({d:?})"),
                        };
                        ctx.bad(&["C09", "C06", "C07", "C02"], || desc(&format!("iterator gave {m}, expected {w:?}"), i));
                        break;
                    }
                },
                3 => {
                    if depth < 3 {
                        let mut rest = it.clone();
                        rest.kind = Kind::Tuple;
                        rest.fields = if seq { vec![] } else { it.fields[i..].to_vec() };
                        rest.count = it.count - i;
                        c.tuple(self, &rest, &b[off..], depth + 1);
                    }
                }
                _ => {
                    let mut o = off;
                    let mut bad = None;
                    for k in i..it.count {
                        match ctx.cx.len(it.id(k), it.compact, &b[o..]) {
                            Ok(n) => o += n,
                            Err(p) => {
                                bad = Some(p);
                                break;
                            }
                        }
                    }
                    match (c.skip(), bad) {
                        (Ok(()), None) => {
                            i = it.count;
                            off = o;
                        }
                        (Err(d), Some(p)) => {
                            ctx.ensure(&["C02"], perr_matches(&p, &d), || desc(&format!("skip error {d:?}, expected {p:?}"), i));
                            err = Some(RErr::Dec(d));
                            if !seq {
                                ctx.ensure(tg, c.remaining() == 0, || desc("items remain after a failed skip", i));
                            }
                            break;
                        }
                        (r, w) => {
                            ctx.bad(&["C02", "C01"], || desc(&format!("skip_decoding gave {r:?}, expected failure: {w:?}"), i));
                            break;
                        }
                    }
                }
            }
        }
        // The views outlive the iteration, and decode to the same however often they are decoded.
        for (v, k, o, n) in views {
            let vb = &b[o..o + n];
            let times = 1 + ctx.below(2);
            for _ in 0..times {
                if ctx.budget.get() <= 0 {
                    break;
                }
                ctx.budget.set(ctx.budget.get() - 1);
                let (f, rec) = sub(ctx, it.id(k), it.compact, vb);
                let before = ctx.viol.borrow().len();
                let r = v.decode(rec, ctx.chance(30));
                judge(ctx, &f, &r, None);
                if ctx.viol.borrow().len() > before {
                    ctx.bad(&["C09"], || desc("decoding the item view later went wrong", k));
                }
            }
            let (x, y) = v.typed(ctx.below(6), it.id(k), it.compact, ctx.cx.reg, vb);
            ctx.ensure(&["C09"], x == y, || desc(&format!("decode_as_type of the view gives {x}, in place {y}"), k));
        }
        err
    }

    /// What remains obtainable after an item failed.
    fn after_failure<'x, 'r, C: Cont<'x, 'r>>(&self, it: &Items, i: usize, off: usize, b: &[u8], c: &mut C, tg: Props) {
        let ctx = self.ctx;
        let desc = |w: &str| format!("{}: {w} after item {i} of {} failed", self.f.desc(), it.count);
        if matches!(it.kind, Kind::Sequence | Kind::Array) {
            let left = it.count - i - 1;
            ctx.ensure(tg, c.remaining() == left, || desc(&format!("remaining() is {}", c.remaining())));
            if left <= 30 {
                let mut k = 0;
                while k <= left && c.refuse().is_some() {
                    k += 1;
                }
                ctx.ensure(tg, k == left, || desc(&format!("{k} further items instead of {left}")));
                ctx.ensure(tg, c.remaining() == 0, || desc("items remain"));
            }
        } else {
            ctx.ensure(tg, c.remaining() == 0, || desc(&format!("remaining() is {}", c.remaining())));
            ctx.ensure(tg, same(c.undecoded(), &b[off..]), || desc("the cursor moved"));
            ctx.ensure(tg, c.ignore().is_none(), || desc("another field was handed out"));
            ctx.ensure(tg, c.next_view().is_none(), || desc("another field was handed out by the iterator"));
        }
    }
}

pub trait View {
    fn bytes(&self) -> &[u8];
    fn id(&self) -> Tid;
    fn name(&self) -> Option<Option<&str>>;
    fn compact(&self) -> Option<bool>;
    fn decode(&self, v: Rec, clone: bool) -> Result<Tok, RErr>;
    fn typed(&self, k: usize, id: &Tid, c: bool, reg: &Reg, b: &[u8]) -> (String, String);
}
fn show<T: core::fmt::Debug>(r: Result<T, scale_decode::Error>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => format!("Err({e})"),
    }
}
macro_rules! view {
    ($w:ident, $t:ident, $s:ident, $name:expr, $compact:expr) => {
        pub struct $w<'x, 'r>($t<'x, 'r, Reg>);
        impl<'x, 'r> View for $w<'x, 'r> {
            fn bytes(&self) -> &[u8] {
                self.0.bytes()
            }
            fn id(&self) -> Tid {
                self.0.type_id().clone()
            }
            fn name(&self) -> Option<Option<&str>> {
                let $s = &self.0;
                $name
            }
            fn compact(&self) -> Option<bool> {
                let $s = &self.0;
                $compact
            }
            fn decode(&self, v: Rec, clone: bool) -> Result<Tok, RErr> {
                if clone { self.0.clone().decode_with_visitor(v) } else { self.0.decode_with_visitor(v) }
            }
            fn typed(&self, k: usize, id: &Tid, c: bool, reg: &Reg, b: &[u8]) -> (String, String) {
                macro_rules! both {
                    ($ty:ty) => {
                        (
                            show(self.0.decode_as_type::<$ty>()),
                            show(<$ty>::decode_as_type_maybe_compact(&mut &*b, id.clone(), reg, c)),
                        )
                    };
                }
                match k {
                    0 => both!(u64),
                    1 => both!(String),
                    2 => both!(Box<u128>),
                    3 => both!(Vec<u8>),
                    4 => both!((u8,)),
                    _ => both!(bool),
                }
            }
        }
    };
}
view!(SequenceV, SequenceItem, _s, None, None);
view!(ArrayV, ArrayItem, _s, None, None);
view!(CompositeV, CompositeField, s, Some(s.name()), Some(s.is_compact()));
view!(TupleV, TupleField, s, None, Some(s.is_compact()));

pub trait Cont<'x, 'r> {
    type View: View;
    fn dec(&mut self, v: Rec, generic: bool) -> Option<Result<Tok, RErr>>;
    fn ignore(&mut self) -> Option<Result<(), DecodeError>>;
    fn refuse(&mut self) -> Option<()>;
    fn next_view(&mut self) -> Option<Result<Self::View, DecodeError>>;
    fn undecoded(&self) -> &[u8];
    fn remaining(&self) -> usize;
    fn skip(&mut self) -> Result<(), DecodeError>;
    fn peek(&self, ctx: &Ctx, it: &Items, i: usize, desc: &dyn Fn(&str, usize) -> String);
    fn tuple(&self, rec: &Rec, it: &Items, b: &[u8], depth: u32);
}
fn generic<'x, 'r, D: DecodeItemIterator<'x, 'r, Reg>>(d: &mut D, v: Rec) -> Option<Result<Tok, RErr>> {
    d.decode_item(v)
}
macro_rules! cont {
    ($t:ident, $v:ident, $s:ident, $ctx:ident, $it:ident, $i:ident, $desc:ident, $peek:expr,
     $rec:ident, $b:ident, $d:ident, $tuple:expr) => {
        impl<'x, 'r> Cont<'x, 'r> for $t<'x, 'r, Reg> {
            type View = $v<'x, 'r>;
            fn dec(&mut self, v: Rec, g: bool) -> Option<Result<Tok, RErr>> {
                if g { generic(self, v) } else { self.decode_item(v) }
            }
            fn ignore(&mut self) -> Option<Result<(), DecodeError>> {
                self.decode_item(IgnoreVisitor::<Reg>::new())
            }
            fn refuse(&mut self) -> Option<()> {
                self.decode_item(Refuse).map(|_| ())
            }
            fn next_view(&mut self) -> Option<Result<Self::View, DecodeError>> {
                self.next().map(|r| r.map($v))
            }
            fn undecoded(&self) -> &[u8] {
                self.bytes_from_undecoded()
            }
            fn remaining(&self) -> usize {
                $t::remaining(self)
            }
            fn skip(&mut self) -> Result<(), DecodeError> {
                self.skip_decoding()
            }
            fn peek(&self, $ctx: &Ctx, $it: &Items, $i: usize, $desc: &dyn Fn(&str, usize) -> String) {
                let $s = self;
                $peek
            }
            fn tuple(&self, $rec: &Rec, $it: &Items, $b: &[u8], $d: u32) {
                let $s = self;
                $tuple
            }
        }
    };
}
cont!(Sequence, SequenceV, _s, _c, _it, _i, _d, {}, _r, _b, _e, {});
cont!(Array, ArrayV, s, ctx, it, i, desc,
    ctx.ensure(&["C06"], s.is_empty() == (it.count == i), || desc("is_empty() is wrong", i)), _r, _b, _e, {});
cont!(Tuple, TupleV, _s, _c, _it, _i, _d, {}, _r, _b, _e, {});
cont!(Composite, CompositeV, s, ctx, it, i, desc, {
    let want = if i < it.count { it.name(i) } else { None };
    ctx.ensure(&["C07"], s.peek_name() == want, || desc(&format!("peek_name() is {:?}", s.peek_name()), i));
    let un = it.has_unnamed();
    ctx.ensure(&["C07"], s.has_unnamed_fields() == un, || desc("has_unnamed_fields() is wrong", i));
    let fs: Vec<_> = s.fields().iter().map(|f| (f.name, f.id.clone())).collect();
    ctx.ensure(&["C07"], fs.len() == it.fields.len() && fs.iter().zip(&it.fields).all(|(a, b)| a.0 == b.0 && a.1 == b.1),
        || desc(&format!("fields() is {fs:?}"), i));
    let p: Vec<_> = s.path().collect();
    ctx.ensure(&["C07"], p == it.path, || desc(&format!("path() is {p:?} instead of {:?}", it.path), i));
    ctx.ensure(&["C07"], s.name() == it.path.last().copied(), || desc(&format!("name() is {:?}", s.name()), i));
}, rec, b, d, {
    let mut t = s.as_tuple();
    rec.ctx.ensure(&["C07"], same(t.bytes_from_start(), b), || format!("{}: as_tuple() does not start at the undecoded bytes", rec.f.desc()));
    let before = rec.ctx.viol.borrow().len();
    rec.items(it, b, &mut t, d);
    if rec.ctx.viol.borrow().len() > before {
        rec.ctx.bad(&["C07"], || format!("{}: in as_tuple()", rec.f.desc()));
    }
});

impl<'c, 's> Visitor for Rec<'c, 's> {
    type Value<'scale, 'resolver> = Tok;
    type Error = RErr;
    type TypeResolver = Reg;

    fn unchecked_decode_as_type<'scale, 'resolver>(
        mut self,
        input: &mut &'scale [u8],
        type_id: Tid,
        types: &'resolver Reg,
    ) -> DecodeAsTypeResult<Self, Result<Tok, RErr>> {
        let ctx = self.ctx;
        let f = self.f.clone();
        let n = f.unchecked.get();
        f.unchecked.set(n + 1);
        ctx.ensure(&["C12"], f.chain.get(n) == Some(&type_id), || {
            format!("{}: offer {n} has type ID {type_id:?}", f.desc())
        });
        ctx.ensure(&["C12"], same(input, f.bytes.get()), || format!("{}: offer {n} has another input", f.desc()));
        ctx.ensure(&["C12"], core::ptr::eq(types, ctx.cx.reg), || format!("{}: offer {n} has another resolver", f.desc()));
        ctx.ensure(&["C12"], f.calls.get() == 0, || format!("{}: offered after a callback", f.desc()));
        if ctx.chance(ctx.take) {
            // Taking over must leave the item complete for whatever follows it.
            let len = ctx.cx.len(&f.chain[0], f.c0, f.bytes.get());
            if let Ok(len) = len {
                let r = if ctx.chance(70) { Ok(ctx.fresh()) } else { Err(RErr::Inj(ctx.fresh())) };
                *input = &input[len..];
                *f.took.borrow_mut() = Some((r.clone(), len, ctx.cx.reg.resolves.get()));
                return DecodeAsTypeResult::Decoded(r);
            }
        }
        if f.may_move && ctx.chance(50) && !input.is_empty() {
            let k = 1 + ctx.below(input.len());
            *input = &input[k..];
            let b = &f.bytes.get()[k..];
            f.bytes.set(b);
            ctx.cx.fuel.set(20_000);
            let endless = matches!(ctx.cx.len(&f.chain[0], f.c0, b), Err(PErr::Fuel));
            ctx.cx.fuel.set(u32::MAX);
            *f.head.borrow_mut() = ctx.cx.head(&f.chain[0], f.c0, b);
            if endless {
                // too large to follow
                let r = Ok(ctx.fresh());
                *f.took.borrow_mut() = Some((r.clone(), 0, ctx.cx.reg.resolves.get()));
                return DecodeAsTypeResult::Decoded(r);
            }
        }
        self.tag = ctx.fresh();
        f.tag.set(self.tag);
        DecodeAsTypeResult::Skipped(self)
    }

    fn visit_bool<'scale, 'resolver>(self, v: bool, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::Bool, LeafVal::Bool(v), id)
    }
    fn visit_char<'scale, 'resolver>(self, v: char, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::Char, LeafVal::Char(v), id)
    }
    fn visit_u8<'scale, 'resolver>(self, v: u8, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::U8, LeafVal::U(v as u128), id)
    }
    fn visit_u16<'scale, 'resolver>(self, v: u16, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::U16, LeafVal::U(v as u128), id)
    }
    fn visit_u32<'scale, 'resolver>(self, v: u32, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::U32, LeafVal::U(v as u128), id)
    }
    fn visit_u64<'scale, 'resolver>(self, v: u64, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::U64, LeafVal::U(v as u128), id)
    }
    fn visit_u128<'scale, 'resolver>(self, v: u128, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::U128, LeafVal::U(v), id)
    }
    fn visit_u256<'resolver>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
        self.leaf(Unexpected::U256, LeafVal::B32(*v), id)
    }
    fn visit_i8<'scale, 'resolver>(self, v: i8, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::I8, LeafVal::I(v as i128), id)
    }
    fn visit_i16<'scale, 'resolver>(self, v: i16, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::I16, LeafVal::I(v as i128), id)
    }
    fn visit_i32<'scale, 'resolver>(self, v: i32, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::I32, LeafVal::I(v as i128), id)
    }
    fn visit_i64<'scale, 'resolver>(self, v: i64, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::I64, LeafVal::I(v as i128), id)
    }
    fn visit_i128<'scale, 'resolver>(self, v: i128, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.leaf(Unexpected::I128, LeafVal::I(v), id)
    }
    fn visit_i256<'resolver>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'resolver>, Self::Error> {
        self.leaf(Unexpected::I256, LeafVal::B32(*v), id)
    }
    fn visit_sequence<'scale, 'resolver>(self, v: &mut Sequence<'scale, 'resolver, Reg>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut e = None;
        if let Some(Head::Items(it)) = self.enter(Unexpected::Sequence, &id) {
            let b = self.f.bytes.get();
            self.ctx.ensure(&["C06"], same(v.bytes_from_start(), b), || format!("{}: bytes_from_start() is wrong", self.f.desc()));
            e = self.items(&it, &b[it.off..], v, 0);
        }
        self.done(e)
    }
    fn visit_array<'scale, 'resolver>(self, v: &mut Array<'scale, 'resolver, Reg>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut e = None;
        if let Some(Head::Items(it)) = self.enter(Unexpected::Array, &id) {
            let b = self.f.bytes.get();
            self.ctx.ensure(&["C06"], same(v.bytes_from_start(), b), || format!("{}: bytes_from_start() is wrong", self.f.desc()));
            e = self.items(&it, b, v, 0);
        }
        self.done(e)
    }
    fn visit_composite<'scale, 'resolver>(self, v: &mut Composite<'scale, 'resolver, Reg>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut e = None;
        if let Some(Head::Items(it)) = self.enter(Unexpected::Composite, &id) {
            let b = self.f.bytes.get();
            self.ctx.ensure(&["C07"], same(v.bytes_from_start(), b), || format!("{}: bytes_from_start() is wrong", self.f.desc()));
            e = self.items(&it, b, v, 0);
        }
        self.done(e)
    }
    fn visit_tuple<'scale, 'resolver>(self, v: &mut Tuple<'scale, 'resolver, Reg>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut e = None;
        if let Some(Head::Items(it)) = self.enter(Unexpected::Tuple, &id) {
            let b = self.f.bytes.get();
            self.ctx.ensure(&["C07"], same(v.bytes_from_start(), b), || format!("{}: bytes_from_start() is wrong", self.f.desc()));
            e = self.items(&it, b, v, 0);
        }
        self.done(e)
    }
    fn visit_variant<'scale, 'resolver>(self, v: &mut Variant<'scale, 'resolver, Reg>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut e = None;
        if let Some(Head::Items(it)) = self.enter(Unexpected::Variant, &id) {
            let b = self.f.bytes.get();
            let ctx = self.ctx;
            let t: Props = &["C08"];
            ctx.ensure(t, v.name() == it.vname, || format!("{}: variant name {} instead of {}", self.f.desc(), v.name(), it.vname));
            ctx.ensure(t, v.index() == it.vindex, || format!("{}: variant index {}", self.f.desc(), v.index()));
            ctx.ensure(t, same(v.bytes_from_start(), b), || format!("{}: bytes_from_start() is wrong", self.f.desc()));
            ctx.ensure(t, same(v.bytes_from_undecoded(), &b[1..]), || format!("{}: fields do not start after the index", self.f.desc()));
            ctx.ensure(t, same(v.fields().bytes_from_start(), &b[1..]), || format!("{}: fields do not start after the index", self.f.desc()));
            if ctx.chance(85) {
                e = self.items(&it, &b[1..], v.fields(), 0);
            } else {
                let want = ctx.cx.rest(&Head::Items(it.clone()), b);
                let got = v.skip_decoding();
                ctx.ensure(&["C08", "C02"], got.is_ok() == want.is_ok(), || format!("{}: Variant::skip_decoding gave {got:?}", self.f.desc()));
                if let Err(d) = got {
                    e = Some(RErr::Dec(d));
                }
                if let Ok(n) = want {
                    ctx.ensure(&["C08", "C01"], same(v.bytes_from_undecoded(), &b[n..]), || format!("{}: wrong bytes after Variant::skip_decoding", self.f.desc()));
                }
            }
        }
        self.done(e)
    }
    fn visit_str<'scale, 'resolver>(self, v: &mut Str<'scale>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut e = None;
        if let Some(Head::Str { len, pre }) = self.enter(Unexpected::Str, &id) {
            let b = self.f.bytes.get();
            let ctx = self.ctx;
            let t: Props = &["C11"];
            ctx.ensure(t, v.len() == len && v.is_empty() == (len == 0), || format!("{}: len() is {} instead of {len}", self.f.desc(), v.len()));
            ctx.ensure(t, same(v.bytes_from_start(), b), || format!("{}: bytes_from_start() is wrong", self.f.desc()));
            ctx.ensure(t, matches!(v.bytes_after(), Ok(x) if same(x, &b[pre + len..])), || format!("{}: bytes_after() is wrong", self.f.desc()));
            let want = core::str::from_utf8(&b[pre..pre + len]);
            match (v.as_str(), want) {
                (Ok(x), Ok(y)) => {
                    ctx.ensure(&["C11", "C04"], x == y && same(x.as_bytes(), y.as_bytes()), || format!("{}: as_str() is {x:?} instead of {y:?}", self.f.desc()));
                }
                (Err(DecodeError::InvalidStr(x)), Err(y)) if x == y => {
                    if ctx.chance(50) {
                        e = Some(RErr::Dec(DecodeError::InvalidStr(x)));
                    }
                }
                (x, y) => ctx.bad(t, || format!("{}: as_str() is {x:?} instead of {y:?}", self.f.desc())),
            }
        }
        self.done(e)
    }
    fn visit_bitsequence<'scale, 'resolver>(self, v: &mut BitSequence<'scale>, id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut e = None;
        if let Some(h @ Head::Bits { .. }) = self.enter(Unexpected::Bitsequence, &id) {
            let b = self.f.bytes.get();
            let ctx = self.ctx;
            let t: Props = &["C11"];
            let want = ctx.cx.bits(&h, b);
            let size = ctx.cx.rest(&h, b);
            ctx.ensure(t, same(v.bytes_from_start(), b), || format!("{}: bytes_from_start() is wrong", self.f.desc()));
            let after = |v: &BitSequence, w: &str| match (v.bytes_after(), &size) {
                (Ok(x), Ok(n)) => ctx.ensure(t, same(x, &b[*n..]), || format!("{}: bytes_after() is wrong {w} decode", self.f.desc())),
                (Err(d), Err(p)) => ctx.ensure(t, perr_matches(p, &d), || format!("{}: bytes_after() fails with {d:?} {w} decode", self.f.desc())),
                (x, y) => ctx.bad(t, || format!("{}: bytes_after() is {x:?} {w} decode, expected {y:?}", self.f.desc())),
            };
            if ctx.chance(50) {
                after(v, "before");
            }
            for _ in 0..ctx.below(3) {
                match (v.decode(), &want) {
                    (Ok(d), Some(w)) => {
                        let got: Result<Vec<bool>, _> = d.collect();
                        ctx.ensure(&["C11", "C04"], matches!(&got, Ok(g) if g == w), || format!("{}: bits {got:?} instead of {w:?}", self.f.desc()));
                    }
                    (Err(d), None) => {
                        let p = size.clone().unwrap_err();
                        ctx.ensure(t, perr_matches(&p, &d), || format!("{}: decode() fails with {d:?}", self.f.desc()));
                        if ctx.chance(50) {
                            e = Some(RErr::Dec(d));
                        }
                    }
                    (r, w) => {
                        let r = r.map(|d| d.collect::<Result<Vec<bool>, _>>());
                        ctx.bad(t, || format!("{}: decode() is {r:?}, expected {w:?}", self.f.desc()));
                    }
                }
            }
            after(v, "after");
        }
        self.done(e)
    }
}

/// Implements only the catch-all callback.
pub struct Catch<'a>(pub &'a RefCell<Vec<Unexpected>>);
impl<'a> Visitor for Catch<'a> {
    type Value<'scale, 'resolver> = u64;
    type Error = RErr;
    type TypeResolver = Reg;
    fn visit_unexpected<'scale, 'resolver>(self, u: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.0.borrow_mut().push(u);
        Ok(7)
    }
}
/// Implements nothing.
pub struct Nothing;
impl Visitor for Nothing {
    type Value<'scale, 'resolver> = u64;
    type Error = RErr;
    type TypeResolver = Reg;
}

/// Takes over every decode and fails, without reading anything.
pub struct Refuse;
impl Visitor for Refuse {
    type Value<'scale, 'resolver> = u64;
    type Error = RErr;
    type TypeResolver = Reg;
    fn unchecked_decode_as_type<'scale, 'resolver>(
        self,
        _input: &mut &'scale [u8],
        _type_id: Tid,
        _types: &'resolver Reg,
    ) -> DecodeAsTypeResult<Self, Result<u64, RErr>> {
        DecodeAsTypeResult::Decoded(Err(RErr::Inj(0)))
    }
}
