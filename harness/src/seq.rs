//! The interpreter for `Chunk` and `RingBuffer`: runs an operation on the real
//! containers and on a model (three plain sequences), and compares.

use crate::core::*;
use crate::seqc::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::Bound;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum O {
    New,
    Unit,
    Pair,
    Drop,
    Move,
    PushB,
    PushF,
    PopB,
    PopF,
    Insert,
    InsertOrd,
    Remove,
    Set,
    DropL,
    DropR,
    Clear,
    SplitOff,
    Append,
    DrainFF,
    DrainFB,
    TakeF,
    TakeB,
    TakeAll,
    InsertFrom,
    Extend,
    ExtendVec,
    ExtendRef,
    FromIter,
    CollectFrom,
    Get,
    GetMut,
    Unchecked,
    Index,
    IndexMut,
    Ends,
    Contains,
    Search,
    Fixes,
    Swap,
    Sort,
    Iter,
    View,
    ViewMut,
    IndexRange,
    IndexRangeMut,
    Clone,
    CloneFrom,
    Rel,
    Fmt,
    Slice,
    SliceRel,
    Write,
    Read,
    PoolDefault,
    PoolClone,
    Layout,
    ToChunk,
}

pub mod group {
    pub const CORE: u32 = 1;
    pub const BULK: u32 = 2;
    pub const ACCESS: u32 = 4;
    pub const ITER: u32 = 8;
    pub const VIEW: u32 = 16;
    pub const COPY: u32 = 32;
    pub const REL: u32 = 64;
    pub const SLICE: u32 = 128;
    pub const IO: u32 = 256;
    pub const POOL: u32 = 512;
    pub const SORT: u32 = 1024;
    pub const LAYOUT: u32 = 2048;
    /// Random histories without core calls to get around.
    pub const STILL: u32 = 1 << 20;
    pub fn parse(s: &str) -> u32 {
        s.split(',').filter(|x| !x.is_empty()).fold(0, |a, x| {
            a | match x {
                "core" => CORE,
                "bulk" => BULK,
                "access" => ACCESS,
                "iter" => ITER,
                "view" => VIEW,
                "copy" => COPY,
                "rel" => REL,
                "slice" => SLICE,
                "io" => IO,
                "pool" => POOL,
                "sort" => SORT,
                "layout" => LAYOUT,
                "still" => STILL,
                "all" => 0xffff,
                _ => super::die("unknown group"),
            }
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub o: O,
    pub s: usize,
    pub t: usize,
    pub a: usize,
    pub b: usize,
    pub c: usize,
    pub v: u32,
    pub p: Vec<usize>,
}

impl Op {
    pub fn new(o: O) -> Op {
        Op { o, s: 0, t: 1, a: 0, b: 0, c: 0, v: 100, p: vec![] }
    }
    pub fn a(mut self, a: usize) -> Op {
        self.a = a;
        self
    }
    pub fn b(mut self, b: usize) -> Op {
        self.b = b;
        self
    }
    pub fn c(mut self, c: usize) -> Op {
        self.c = c;
        self
    }
    pub fn v(mut self, v: u32) -> Op {
        self.v = v;
        self
    }
    pub fn p(mut self, p: Vec<usize>) -> Op {
        self.p = p;
        self
    }
    pub fn show(&self) -> String {
        format!("{:?}(s={} t={} a={} b={} c={} v={}{})", self.o, self.s, self.t, self.a, self.b, self.c, self.v, if self.p.is_empty() { String::new() } else { format!(" p={:?}", self.p) })
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub groups: u32,
    /// Percentage of arguments that may be out of range.
    pub misuse: usize,
    /// Leave out what is a known finding under Miri.
    pub nokf: bool,
    pub cost: bool,
    pub iters: bool,
}

impl Cfg {
    pub fn from(run: &Run) -> Cfg {
        Cfg {
            groups: group::parse(run.get("groups").unwrap_or("all")),
            misuse: run.num("misuse", 10) as usize,
            nokf: run.num("nokf", 0) != 0,
            cost: run.interest & kind::COST != 0,
            iters: !cfg!(miri) || run.interest & kind::ITER != 0,
        }
    }
}

/// Makes calls, with or without an injected fault.
pub struct Fx {
    pub fault: u64,
    pub fired: Option<Tick>,
}
impl Fx {
    pub fn go<T>(&mut self, f: impl FnOnce() -> T) -> Res<T> {
        if self.fault == 0 {
            return call(f);
        }
        let l = ledger();
        l.arm(self.fault);
        let r = call(f);
        if let Some(t) = ledger().disarm() {
            self.fired = Some(t);
        }
        r
    }
}

/// What must hold of the operands after a fault.
pub enum Aft {
    Unchanged,
    /// The slot holds what it held, followed by a prefix of these.
    Prefix(usize, Vec<Obs>),
    /// The slot holds a subsequence of what it held; others are unchanged.
    Subseq(usize),
    /// The slot holds a contiguous part of what it held, nothing leaked.
    Window(usize),
    /// The slot holds a rearrangement of what it held.
    Perm(usize),
    /// The slot holds any of what it held and these; leaking is allowed.
    Any(usize, Vec<Obs>),
    /// As `Unchanged`, but leaking is allowed.
    UnchangedLeaky,
    /// The slot holds a whole new value or its old one.
    Fresh(usize, Vec<Obs>),
}

pub struct Slot<E: Elem> {
    pub c: SB<E>,
    pub m: Vec<Obs>,
}

pub struct Eng<'r, E: Elem> {
    /// The pushes, all of this kind, that have filled slot 0 since it was empty.
    pub streak: Option<(O, usize)>,
    pub run: &'r mut Run,
    pub k: Ctor<E>,
    pub cfg: Cfg,
    pub sl: Vec<Slot<E>>,
    pub fx: Fx,
    pub leaked: isize,
    /// The case can't be continued.
    pub dead: bool,
    fam: Kinds,
    adopt: bool,
    refused: bool,
    slot0: usize,
}

// ------------------------------------------------------------ iterators

#[derive(PartialEq, Eq, Debug, Clone)]
pub enum Ev {
    Item(Option<Obs>),
    Hint(usize, Option<usize>, usize),
    Count(usize),
    Items(Vec<Obs>),
}

pub const FINS: usize = 15;
/// The finisher that forgets the iterator.
pub const FORGET: usize = 9;

/// How many items beyond a container's capacity pass for no end of them.
pub const ENDLESS: usize = if cfg!(miri) { 40 } else { 400 };

/// Drive an iterator: steps, then a finisher. Steps: 0 next, 1 next_back,
/// 2+k nth(k), 10+k nth_back(k), 20 nth(huge), 21 nth_back(huge).
pub fn drive<'a, T>(it: Box<dyn Dei<T> + 'a>, pat: &[usize], fin: usize, see: &mut dyn FnMut(T) -> Obs) -> Vec<Ev> {
    let mut it = it;
    let mut ev = Vec::new();
    let hint = |it: &Box<dyn Dei<T> + 'a>| {
        let (l, h) = it.size_hint();
        Ev::Hint(l, h, it.len())
    };
    ev.push(hint(&it));
    for &p in pat {
        let x = match p {
            0 => it.next(),
            1 => it.next_back(),
            20 => it.nth(usize::MAX),
            21 => it.nth_back(usize::MAX),
            p if p < 10 => it.nth(p - 2),
            p => it.nth_back(p - 10),
        };
        ev.push(Ev::Item(x.map(&mut *see)));
        ev.push(hint(&it));
    }
    match fin {
        1 => ev.push(Ev::Count(it.count_b())),
        2 => ev.push(Ev::Item(it.last_b().map(&mut *see))),
        3 | 4 => {
            let mut v = Vec::new();
            let mut f = |x: T| {
                tick(Tick::Call);
                v.push(see(x))
            };
            if fin == 3 {
                it.fold_b(&mut f)
            } else {
                it.rfold_b(&mut f)
            }
            ev.push(Ev::Items(v));
        }
        5 => ev.push(Ev::Items(it.collect_b().into_iter().map(&mut *see).collect())),
        6 => ev.push(Ev::Items(it.step_b(2).into_iter().map(&mut *see).collect())),
        7 | 8 => {
            let mut v = Vec::new();
            let mut left = 10_000;
            while let Some(x) = if fin == 7 { it.next() } else { it.next_back() } {
                v.push(see(x));
                left -= 1;
                if left == 0 {
                    break;
                }
            }
            ev.push(Ev::Items(v));
            ev.push(hint(&it));
            for _ in 0..2 {
                ev.push(Ev::Item(it.next().map(&mut *see)));
                ev.push(Ev::Item(it.next_back().map(&mut *see)));
            }
            ev.push(hint(&it));
        }
        FORGET => it.forget_b(),
        10..=14 => {
            let mut v = Vec::new();
            let mut f = |x: T| {
                tick(Tick::Call);
                v.push(see(x))
            };
            match fin {
                10 => it.any_b(&mut f),
                11 => it.find_map_b(&mut f),
                12 => it.position_b(&mut f),
                13 => it.rposition_b(&mut f),
                _ => it.each_b(&mut f),
            }
            ev.push(Ev::Items(v));
        }
        _ => {}
    }
    ev
}

/// What driving an iterator over `m` that way gives, and what it leaves.
pub fn drive_model(m: &[Obs], pat: &[usize], fin: usize) -> (Vec<Ev>, (usize, usize)) {
    let (mut lo, mut hi) = (0, m.len());
    let mut ev = Vec::new();
    let hint = |lo: usize, hi: usize| Ev::Hint(hi - lo, Some(hi - lo), hi - lo);
    ev.push(hint(lo, hi));
    for &p in pat {
        let (back, k) = match p {
            0 => (false, 0),
            1 => (true, 0),
            20 => (false, usize::MAX),
            21 => (true, usize::MAX),
            p if p < 10 => (false, p - 2),
            p => (true, p - 10),
        };
        let n = hi - lo;
        let x = if k >= n {
            if back {
                hi = lo
            } else {
                lo = hi
            }
            None
        } else if back {
            hi -= k + 1;
            Some(m[hi])
        } else {
            lo += k + 1;
            Some(m[lo - 1])
        };
        ev.push(Ev::Item(x));
        ev.push(hint(lo, hi));
    }
    let rest: Vec<Obs> = m[lo..hi].to_vec();
    match fin {
        1 => ev.push(Ev::Count(rest.len())),
        2 => ev.push(Ev::Item(rest.last().copied())),
        3 | 5 | 10 | 11 | 12 | 14 => ev.push(Ev::Items(rest)),
        4 | 13 => ev.push(Ev::Items(rest.into_iter().rev().collect())),
        6 => ev.push(Ev::Items(rest.into_iter().step_by(2).collect())),
        7 | 8 => {
            ev.push(Ev::Items(if fin == 7 { rest } else { rest.into_iter().rev().collect() }));
            ev.push(hint(0, 0));
            for _ in 0..4 {
                ev.push(Ev::Item(None));
            }
            ev.push(hint(0, 0));
        }
        _ => return (ev, (lo, hi)),
    }
    (ev, (hi, hi))
}

/// Check references that are held together, write through them all, in an
/// order unlike the one they were produced in, and read them back.
pub fn exercise<E: Elem>(run: &mut Run, refs: &mut Vec<&mut E>, v: u32) -> Vec<u32> {
    let size = std::mem::size_of::<E>();
    if size > 0 {
        let mut a: Vec<usize> = refs.iter().map(|r| &**r as *const E as usize).collect();
        a.sort_unstable();
        if a.windows(2).any(|w| w[1] - w[0] < size) {
            run.violation(kind::ALIAS, "mutable references held together overlap");
        }
    }
    let n = refs.len();
    let vals: Vec<u32> = (0..n).map(|i| E::rep(v.wrapping_add(7 * i as u32))).collect();
    for i in (0..n).rev().step_by(2).chain((0..n).rev().skip(1).step_by(2)) {
        refs[i].poke(vals[i]);
    }
    for i in 0..n {
        if refs[i].val() != vals[i] {
            run.violation(kind::ALIAS, "a write through one mutable reference changed another's element");
        }
    }
    vals
}

pub fn parse_range(r: Rg, len: usize) -> Option<(usize, usize)> {
    let lo = match r.0 {
        Bound::Included(i) => i,
        Bound::Unbounded => 0,
        Bound::Excluded(_) => return None,
    };
    let hi = match r.1 {
        Bound::Included(i) => i.checked_add(1)?,
        Bound::Excluded(i) => i,
        Bound::Unbounded => len,
    };
    if lo <= hi && hi <= len {
        Some((lo, hi))
    } else {
        None
    }
}

pub fn range_of(form: usize, a: usize, b: usize) -> Rg {
    match form % 6 {
        0 => (Bound::Included(a), Bound::Excluded(b)),
        1 => (Bound::Included(a), Bound::Included(b)),
        2 => (Bound::Included(a), Bound::Unbounded),
        3 => (Bound::Unbounded, Bound::Excluded(b)),
        4 => (Bound::Unbounded, Bound::Included(b)),
        _ => (Bound::Unbounded, Bound::Unbounded),
    }
}

fn vals_of(m: &[Obs]) -> Vec<u32> {
    m.iter().map(|o| o.val).collect()
}

fn sorted(m: &[Obs]) -> bool {
    m.windows(2).all(|w| w[0].val <= w[1].val)
}

fn sorted_how(m: &[Obs], how: usize) -> bool {
    m.windows(2).all(|w| if how == 1 { w[0].val >= w[1].val } else { w[0].val <= w[1].val })
}

fn show(m: &[Obs]) -> String {
    let mut s: Vec<String> = m.iter().take(24).map(|o| if o.uid == 0 { format!("{}", o.val) } else { format!("{}#{}", o.val, o.uid) }).collect();
    if m.len() > 24 {
        s.push(format!("..{}", m.len()));
    }
    format!("[{}]", s.join(" "))
}

fn log2(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}

impl<'r, E: Elem> Eng<'r, E> {
    pub fn new(run: &'r mut Run, k: Ctor<E>, cfg: Cfg) -> Self {
        let mut e = Eng {
            streak: None,
            run,
            k,
            cfg,
            sl: Vec::new(),
            fx: Fx { fault: 0, fired: None },
            leaked: 0,
            dead: false,
            fam: 0,
            adopt: false,
            refused: false,
            slot0: 0,
        };
        if cfg.cost && k.cap > 0 && k.lim == k.cap && !k.inl {
            // A full container occupies all of its storage.
            let mut c = (k.new)();
            let mut low = usize::MAX;
            for _ in 0..k.cap {
                c.push_back(E::make(0));
            }
            for i in 0..k.cap {
                if let Some(x) = c.get(i) {
                    low = low.min(x as *const E as usize);
                }
            }
            e.slot0 = low.wrapping_sub(c.base());
        }
        e
    }

    pub fn name(&self) -> String {
        if self.k.inl {
            return format!("InlineArray<{},{}>", E::NAME, self.k.host);
        }
        format!("{}<{},{}>", if self.k.ring { "RingBuffer" } else { "Chunk" }, E::NAME, self.k.cap)
    }

    /// Start a case with empty containers.
    pub fn start(&mut self) {
        ledger().reset();
        self.sl.clear();
        for _ in 0..3 {
            let c = (self.k.new)();
            self.sl.push(Slot { c, m: vec![] });
        }
        self.leaked = 0;
        self.streak = None;
        self.dead = false;
        self.adopt = false;
        self.fx = Fx { fault: 0, fired: None };
        self.run.log = self.name();
    }

    /// Bring a slot to a layout: `l` unused slots before the first item.
    pub fn layout(&mut self, s: usize, l: usize, len: usize, v: u32, dup: bool) {
        if self.run.trace {
            eprintln!("LAYOUT s={} offset={} len={} v={}", s, l, len, v);
        }
        if self.run.log.len() < LOG {
            self.run.log.push_str(&format!("\nlayout(s={} offset={} len={} v={}{})", s, l, len, v, if dup { " dup" } else { "" }));
        }
        let n = self.k.lim;
        let first = (l + len).min(n);
        let val = |i: usize| E::rep(if dup { (mix(v as u64, i as u64) % 3) as u32 } else { v.wrapping_add(i as u32) });
        let sl = &mut self.sl[s];
        let mut vals = (0..len).map(val);
        let l0 = first.min(l);
        let r = call(|| {
            for _ in 0..l0 {
                sl.c.push_back(E::make(0));
            }
            for i in 0..first - l0 {
                let _ = i;
                let e = E::make(vals.next().unwrap());
                sl.m.push(look(&e));
                sl.c.push_back(e);
            }
            for _ in 0..l0 {
                drop(sl.c.pop_front());
            }
            for v in vals {
                let e = E::make(v);
                sl.m.push(look(&e));
                sl.c.push_back(e);
            }
        });
        self.fam = kind::MODEL;
        if !r.is_ok() {
            self.bad(kind::MODEL, "a push that fits, or a pop, panicked");
        }
    }

    fn bad(&mut self, k: Kinds, msg: &str) {
        let n = self.name();
        self.adopt = true;
        self.run.violation(k, &format!("{}: {}", n, msg));
    }

    /// Compare the outcome with what it had to be. True if the operation was
    /// rightly carried out.
    fn judge(&mut self, must: bool, did: bool, k: Kinds) -> bool {
        if self.fx.fired.is_some() {
            return false;
        }
        if must && !did {
            self.bad(k, "panicked though the operation can be honoured");
        } else if !must && did {
            self.bad(kind::REFUSE | k & (kind::SLICE | kind::BULK), "accepted though the operation can't be honoured");
        } else if !must {
            self.refused = true;
            self.fam = kind::REFUSE;
            self.run.refused += 1;
        }
        must && did
    }

    fn mk(&self, v: u32) -> (E, Obs) {
        let e = E::make(E::rep(v));
        let o = look(&e);
        (e, o)
    }

    fn mks(&self, v: u32, n: usize) -> (Vec<E>, Vec<Obs>) {
        let v: Vec<E> = (0..n).map(|i| E::make(E::rep(v.wrapping_add(i as u32)))).collect();
        let o = v.iter().map(look).collect();
        (v, o)
    }

    fn same(&mut self, got: Option<Obs>, want: Option<Obs>, k: Kinds, what: &str) {
        if got != want {
            self.bad(k, &format!("{} gave {:?} instead of {:?}", what, got, want));
        }
    }

    fn addrs(&self, s: usize) -> Vec<(u64, usize)> {
        let c = &self.sl[s].c;
        (0..c.len()).filter_map(|i| c.get(i)).map(|e| (e.uid(), e as *const E as usize)).collect()
    }

    /// The state of a container, for counting distinct ones.
    fn state_hash(&self, s: usize) -> u64 {
        let c = &self.sl[s].c;
        let off = match c.get(0) {
            Some(e) if c.len() > 0 => (e as *const E as usize).wrapping_sub(c.base()),
            _ => 0,
        };
        mix(off as u64, c.len() as u64)
    }

    /// Run one operation, then look at everything.
    pub fn step(&mut self, op: &Op) {
        if self.dead {
            return;
        }
        if self.run.trace {
            eprintln!("OP {}", op.show());
        }
        if self.run.log.len() < LOG {
            self.run.log.push('\n');
            let s = op.show();
            self.run.log.push_str(&s);
        }
        self.run.ops += 1;
        self.adopt = false;
        self.refused = false;
        self.fx.fired = None;
        self.fam = kind::MODEL;
        let nonempty = !self.sl[op.s].m.is_empty() || !self.sl[op.t].m.is_empty();
        let h = if cfg!(miri) { 0 } else { mix(mix(self.state_hash(op.s), self.state_hash(op.t)), hash_op(op)) };
        let pre = if self.cfg.cost && E::UID { Some((self.addrs(op.s), self.addrs(op.t), ledger().clones, ledger().cmps, self.sl[op.s].m.len(), self.sl[op.s].c.base())) } else { None };
        let mut aft = Aft::Unchanged;
        self.run_op(op, &mut aft);
        if self.dead {
            return;
        }
        if self.fx.fired.is_some() {
            self.after_fault(aft, op);
        } else {
            if nonempty || self.refused {
                let h = mix(h, hash_str(E::NAME) ^ (self.k.cap as u64) << 8 ^ self.k.ring as u64 ^ hash_str(self.k.host) << 1);
                self.run.distinct(h);
            }
            if let Some(p) = pre {
                self.costs(op, p);
            }
        }
        self.verify(op.s, op.t);
        self.run.digest = mix(self.run.digest, self.refused as u64 + 2);
    }

    fn costs(&mut self, op: &Op, p: (Vec<(u64, usize)>, Vec<(u64, usize)>, u64, u64, usize, usize)) {
        if self.refused || self.adopt {
            self.streak = None;
            return;
        }
        let (pre_s, _pre_t, clones, cmps, len, base) = p;
        let l = ledger();
        let (dc, dk) = (l.clones - clones, l.cmps - cmps);
        let may_clone = matches!(op.o, O::Clone | O::CloneFrom | O::ExtendRef | O::Slice | O::SliceRel | O::PoolClone);
        if dc > 0 && !may_clone {
            self.bad(kind::COST, &format!("{:?} cloned {} elements", op.o, dc));
        }
        if op.o == O::InsertOrd && dk > 2 * log2(len + 1) + 2 {
            self.bad(kind::COST, &format!("insert_ordered made {} comparisons among {} elements", dk, len));
        }
        let size = std::mem::size_of::<E>();
        let cap = self.k.cap;
        let first = pre_s.first().map(|x| x.1).unwrap_or(0);
        // Free room before and after the items of a Chunk.
        let (lroom, rroom) = if len == 0 || self.k.ring || self.k.inl {
            (0, 0)
        } else {
            let l = first.wrapping_sub(base).wrapping_sub(self.slot0) / size;
            if l > cap || l + len > cap {
                return;
            }
            (l, cap - l - len)
        };
        let ring = self.k.ring;
        // Filling an empty chunk from one side.
        let side = matches!(op.o, O::PushB | O::PushF) && !self.k.inl && op.s == 0;
        let filling = side && self.streak == Some((op.o, len));
        self.streak = if side && (len == 0 || filling) { Some((op.o, len + 1)) } else { None };
        let limit = match op.o {
            O::PopB | O::PopF => 0,
            _ if self.k.inl => return,
            O::PushB if ring || rroom > 0 => 0,
            O::PushF if ring || lroom > 0 => 0,
            O::PushB | O::PushF if filling => 0,
            O::Insert if ring || (lroom > 0 && rroom > 0) => op.a.min(len - op.a),
            O::Remove => op.a.min(len - op.a),
            O::Set | O::Get | O::GetMut | O::Index | O::IndexMut | O::DropL | O::DropR => 0,
            _ => return,
        };
        let post = self.addrs(op.s);
        let mut map: std::collections::HashMap<u64, usize> = pre_s.into_iter().collect();
        let moved = post.iter().filter(|(u, a)| map.remove(u).map_or(false, |b| b != *a)).count();
        self.run.count("relocation_bounds_checked", 1);
        if moved > limit {
            self.bad(kind::COST, &format!("{:?} relocated {} elements, more than {} (len {}, room {} before, {} after)", op.o, moved, limit, len, lroom, rroom));
        }
    }

    fn run_op(&mut self, op: &Op, aft: &mut Aft) {
        let (s, t) = (op.s, op.t);
        let cap = self.k.cap;
        let len = self.sl[s].m.len();
        let ring = self.k.ring;
        let inl = self.k.inl;
        if inl && !inl_has(op.o) {
            return;
        }
        match op.o {
            O::New => {
                let n = self.fx.go(|| self.sl[0].c.new_like(op.a != 0)).ok();
                *aft = Aft::Subseq(t);
                self.put(t, n, vec![], kind::MODEL, true);
            }
            O::Unit | O::Pair => {
                let n = if op.o == O::Unit { 1 } else { 2 };
                let (v, o) = self.mks(op.v, n);
                let mut v = v.into_iter();
                let r = self.fx.go(|| {
                    let a = v.next().unwrap();
                    if n == 1 {
                        self.sl[0].c.unit_like(a)
                    } else {
                        self.sl[0].c.pair_like(a, v.next().unwrap())
                    }
                });
                self.put(t, r.ok(), o, kind::MODEL, cap >= n);
            }
            O::Drop => {
                let c = std::mem::replace(&mut self.sl[s].c, (self.k.new)());
                self.sl[s].m.clear();
                let r = self.fx.go(|| drop(c));
                self.judge(true, r.is_ok(), kind::MODEL);
            }
            O::Move => {
                let c = std::mem::replace(&mut self.sl[s].c, (self.k.new)());
                let r = self.fx.go(|| c.moved());
                if let Res::Ok(c) = r {
                    self.sl[s].c = c;
                }
                self.fam = kind::MODEL | if inl { kind::LAYOUT } else { 0 };
            }
            O::PushB | O::PushF => {
                let (e, o) = self.mk(op.v);
                let r = self.fx.go(|| if op.o == O::PushB { self.sl[s].c.push_back(e) } else { self.sl[s].c.push_front(e) });
                if self.judge(len < cap, r.is_ok(), kind::MODEL) {
                    if op.o == O::PushB {
                        self.sl[s].m.push(o)
                    } else {
                        self.sl[s].m.insert(0, o)
                    }
                }
            }
            O::PopB | O::PopF => {
                let r = self.fx.go(|| if op.o == O::PopB { self.sl[s].c.pop_back() } else { self.sl[s].c.pop_front() });
                if self.judge(ring || inl || len > 0, r.is_ok(), kind::MODEL) {
                    let got = r.ok().unwrap();
                    let want = if len == 0 {
                        None
                    } else if op.o == O::PopB {
                        self.sl[s].m.pop()
                    } else {
                        Some(self.sl[s].m.remove(0))
                    };
                    self.same(got.as_ref().map(look), want, if len == 0 { kind::REFUSE } else { kind::MODEL }, "pop");
                }
            }
            O::Insert => {
                let (e, o) = self.mk(op.v);
                let r = self.fx.go(|| self.sl[s].c.insert(op.a, e));
                if self.judge(len < cap && op.a <= len, r.is_ok(), kind::MODEL) {
                    self.sl[s].m.insert(op.a, o);
                }
            }
            O::InsertOrd => {
                let (e, o) = self.mk(op.v);
                let r = self.fx.go(|| self.sl[s].c.insert_ordered(e));
                if self.judge(len < cap, r.is_ok(), kind::MODEL) {
                    // Any place that keeps the order will do.
                    let now = self.peek(s);
                    let was = sorted(&self.sl[s].m);
                    let ok = now.len() == len + 1 && {
                        let m = &self.sl[s].m;
                        let p = m.iter().zip(&now).take_while(|(a, b)| a == b).count();
                        // Among equal ones the first difference may come later than the place.
                        (0..=p).rev().any(|p| now[p] == o && now[p + 1..] == m[p..]) && (!was || sorted(&now))
                    };
                    if ok {
                        self.sl[s].m = now;
                    } else {
                        self.bad(kind::MODEL, &format!("insert_ordered of {:?} made {}", o, show(&now)));
                    }
                }
            }
            O::Remove => {
                let r = self.fx.go(|| self.sl[s].c.remove(op.a));
                if self.judge(inl || op.a < len, r.is_ok(), kind::MODEL) {
                    let want = if op.a < len { Some(self.sl[s].m.remove(op.a)) } else { None };
                    let got = r.ok().unwrap();
                    self.same(got.as_ref().map(look), want, if want.is_some() { kind::MODEL } else { kind::REFUSE }, "remove");
                }
            }
            O::Set => {
                let (e, o) = self.mk(op.v);
                let r = self.fx.go(|| self.sl[s].c.set(op.a, e));
                if self.judge(ring || op.a < len, r.is_ok(), kind::MODEL) {
                    let got = r.ok().unwrap();
                    let want = if op.a < len { Some(std::mem::replace(&mut self.sl[s].m[op.a], o)) } else { None };
                    self.same(got.as_ref().map(look), want, if op.a < len { kind::MODEL | kind::VIEW } else { kind::REFUSE }, "set");
                }
            }
            O::DropL | O::DropR => {
                *aft = Aft::Subseq(s);
                let r = self.fx.go(|| if op.o == O::DropL { self.sl[s].c.drop_left(op.a) } else { self.sl[s].c.drop_right(op.a) });
                if self.judge(op.a <= len, r.is_ok(), kind::MODEL) {
                    if op.o == O::DropL {
                        self.sl[s].m.drain(..op.a);
                    } else {
                        self.sl[s].m.truncate(op.a);
                    }
                }
            }
            O::Clear => {
                *aft = Aft::Subseq(s);
                let r = self.fx.go(|| self.sl[s].c.clear());
                if self.judge(true, r.is_ok(), kind::MODEL) {
                    self.sl[s].m.clear();
                }
            }
            O::SplitOff => {
                let r = self.fx.go(|| self.sl[s].c.split_off(op.a)).ok();
                let ok = op.a <= len;
                let right = if ok && r.is_some() { self.sl[s].m.split_off(op.a) } else { vec![] };
                self.put(t, r, right, kind::MODEL, ok);
            }
            O::Append | O::DrainFF | O::DrainFB => {
                let tl = self.sl[t].m.len();
                let n = if op.o == O::Append { tl } else { op.a };
                let (x, y) = two(&mut self.sl, s, t);
                let r = self.fx.go(|| match op.o {
                    O::Append => x.c.append(&mut *y.c),
                    O::DrainFF => x.c.drain_from_front(&mut *y.c, n),
                    _ => x.c.drain_from_back(&mut *y.c, n),
                });
                if self.judge(n <= tl && n <= cap - len, r.is_ok(), kind::MODEL) {
                    let (x, y) = two(&mut self.sl, s, t);
                    if op.o == O::DrainFB {
                        let mut v = y.m.split_off(tl - n);
                        v.append(&mut x.m);
                        x.m = v;
                    } else {
                        x.m.extend(y.m.drain(..n));
                    }
                }
            }
            O::TakeF | O::TakeB | O::TakeAll => {
                let n = if op.o == O::TakeAll { len } else { op.a };
                let r = self.fx.go(|| match op.o {
                    O::TakeF => self.sl[s].c.take_front(n),
                    O::TakeB => self.sl[s].c.take_back(n),
                    _ => self.sl[s].c.take_all(),
                });
                let ok = n <= len;
                let m = if !ok || !r.is_ok() {
                    vec![]
                } else if op.o == O::TakeB {
                    self.sl[s].m.split_off(len - n)
                } else {
                    self.sl[s].m.drain(..n).collect()
                };
                self.put(t, r.ok(), m, kind::MODEL, ok);
            }
            O::InsertFrom => self.insert_from(op, aft),
            O::Extend | O::ExtendVec => {
                self.fam = kind::MODEL | kind::BULK;
                let (v, o) = self.mks(op.v, op.b);
                let pulled = Cell::new(0);
                let (hint, lie) = self.hinted(op, cap - len);
                let r = if op.o == O::Extend {
                    self.fx.go(|| self.sl[s].c.extend(PlainIter { items: v.into_iter(), pulled: &pulled, hint }))
                } else {
                    self.fx.go(|| self.sl[s].c.extend_vec(v))
                };
                self.endless(pulled.get());
                *aft = Aft::Prefix(s, o[..pulled.get()].to_vec());
                if lie && op.o == O::Extend && self.fx.fired.is_none() {
                    let now = self.peek(s);
                    let k = now.len().wrapping_sub(len);
                    if now.len() < len || k > o.len() || now.len() > cap || now[..len] != self.sl[s].m[..] || now[len..] != o[..k] {
                        self.bad(kind::BULK, &format!("extend, told {:?}, made {}", hint, show(&now)));
                    }
                    if !r.is_ok() {
                        self.refused = true;
                        self.run.refused += 1;
                    }
                    self.sl[s].m = now;
                } else {
                    self.extended(s, r.is_ok(), o);
                }
            }
            O::ExtendRef => {
                let f = match self.k.extend_ref {
                    Some(f) => f,
                    None => return,
                };
                self.fam = kind::MODEL | kind::BULK | kind::COPY;
                let (v, o) = self.mks(op.v, op.b);
                let clones = ledger().clones;
                let mark = ledger().watermark();
                let r = self.fx.go(|| f(&mut *self.sl[s].c, &v));
                let made = o.iter().enumerate().map(|(i, o)| Obs { uid: if E::UID { mark + i as u64 } else { 0 }, val: o.val }).collect::<Vec<_>>();
                let dc = (ledger().clones - clones) as usize;
                *aft = Aft::Prefix(s, made.clone());
                let fits = op.b.min(cap - len);
                if self.fx.fired.is_none() && E::CLONES && (dc < fits || dc > (fits + 1).min(op.b)) {
                    self.bad(kind::COPY, &format!("extending by {} references made {} clones", op.b, dc));
                }
                self.extended(s, r.is_ok(), made);
                self.any_order(s);
                let still: Vec<Obs> = v.iter().map(look).collect();
                if still != o {
                    self.bad(kind::COPY, "extending by reference changed its source");
                }
            }
            O::FromIter => {
                self.fam = kind::MODEL | kind::BULK | kind::COPY;
                let (v, o) = self.mks(op.v, op.b);
                let pulled = Cell::new(0);
                let (hint, lie) = self.hinted(op, cap);
                let r = self.fx.go(|| self.sl[0].c.from_iter_like(PlainIter { items: v.into_iter(), pulled: &pulled, hint })).ok();
                self.endless(pulled.get());
                self.collected(t, r, o, op.b <= cap, lie);
            }
            O::CollectFrom => {
                self.fam = kind::MODEL | kind::BULK;
                let (v, o) = self.mks(op.v, op.b);
                let pulled = Cell::new(0);
                let (hint, lie) = self.hinted(op, cap);
                let mut it = PlainIter { items: v.into_iter(), pulled: &pulled, hint };
                let r = self.fx.go(|| self.sl[0].c.collect_from_like(&mut it, op.a));
                self.endless(pulled.get());
                let ok = op.a <= op.b && op.a <= cap;
                if ok && !lie && r.is_ok() && pulled.get() != op.a {
                    self.bad(kind::BULK | kind::MODEL, &format!("collect_from({}) took {} items", op.a, pulled.get()));
                }
                let want = o[..op.a.min(op.b)].to_vec();
                self.collected(t, r.ok(), want, ok, lie);
                let rest: Vec<Obs> = it.items.as_slice().iter().map(look).collect();
                if rest != o[pulled.get().min(o.len())..] {
                    self.bad(kind::BULK, "collect_from changed items it didn't take");
                }
            }
            O::Get | O::GetMut => {
                let want = self.sl[s].m.get(op.a).copied();
                let k = if want.is_some() { kind::MODEL | kind::VIEW } else { kind::REFUSE };
                let nv = E::rep(op.v);
                let r = self.fx.go(|| {
                    if op.o == O::Get {
                        self.sl[s].c.get(op.a).map(look)
                    } else {
                        self.sl[s].c.get_mut(op.a).map(|e| {
                            let o = look(e);
                            e.poke(nv);
                            o
                        })
                    }
                });
                if self.judge(true, r.is_ok(), k) {
                    self.same(r.ok().unwrap(), want, k, "get");
                    if want.is_some() && op.o == O::GetMut {
                        self.sl[s].m[op.a].val = nv;
                    }
                }
                self.fam = k;
            }
            O::Unchecked => {
                if op.a >= len {
                    return;
                }
                let want = self.sl[s].m[op.a];
                let nv = E::rep(op.v);
                let r = self.fx.go(|| {
                    let o = look(self.sl[s].c.get_unchecked(op.a));
                    let e = self.sl[s].c.get_unchecked_mut(op.a);
                    let p = look(e);
                    e.poke(nv);
                    (o, p)
                });
                self.fam = kind::MODEL | kind::VIEW;
                if self.judge(true, r.is_ok(), self.fam) {
                    let (o, p) = r.ok().unwrap();
                    self.same(Some(o), Some(want), kind::MODEL | kind::VIEW, "get_unchecked");
                    self.same(Some(p), Some(want), kind::MODEL | kind::VIEW, "get_unchecked_mut");
                    self.sl[s].m[op.a].val = nv;
                }
            }
            O::Index | O::IndexMut => {
                let nv = E::rep(op.v);
                let r = self.fx.go(|| {
                    if op.o == O::Index {
                        look(self.sl[s].c.index(op.a))
                    } else {
                        let e = self.sl[s].c.index_mut(op.a);
                        let o = look(e);
                        e.poke(nv);
                        o
                    }
                });
                if self.judge(op.a < len, r.is_ok(), kind::MODEL | kind::VIEW) {
                    let want = self.sl[s].m[op.a];
                    self.same(r.ok(), Some(want), kind::MODEL | kind::VIEW, "index");
                    if op.o == O::IndexMut {
                        self.sl[s].m[op.a].val = nv;
                    }
                }
            }
            O::Ends => {
                let nv = E::rep(op.v);
                let want = (self.sl[s].m.first().copied(), self.sl[s].m.last().copied());
                let r = self.fx.go(|| {
                    let c = &mut self.sl[s].c;
                    let a = c.first().map(look);
                    let b = c.last().map(look);
                    let d = c.first_mut().map(|e| {
                        let o = look(e);
                        e.poke(nv);
                        o
                    });
                    let e = c.last_mut().map(|e| {
                        let o = look(e);
                        e.poke(nv);
                        o
                    });
                    (a, b, d, e)
                });
                self.fam = kind::MODEL | kind::VIEW;
                if self.judge(true, r.is_ok(), self.fam) {
                    let (a, b, d, e) = r.ok().unwrap();
                    self.same(a, want.0, kind::MODEL, "first");
                    self.same(b, want.1, kind::MODEL, "last");
                    self.same(d, want.0, kind::MODEL, "first_mut");
                    let want_e = if len == 1 { Some(Obs { uid: want.0.unwrap().uid, val: nv }) } else { want.1 };
                    self.same(e, want_e, kind::MODEL, "last_mut");
                    if len > 0 {
                        self.sl[s].m[0].val = nv;
                        self.sl[s].m[len - 1].val = nv;
                    }
                }
            }
            O::Contains => {
                let (e, o) = self.mk(op.v);
                let r = self.fx.go(|| self.sl[s].c.contains(&e));
                let want = self.sl[s].m.iter().any(|x| x.val == o.val);
                if self.judge(true, r.is_ok(), kind::MODEL) && r.ok() != Some(want) {
                    self.bad(kind::MODEL, &format!("contains({}) isn't {}", o.val, want));
                }
            }
            O::Search => {
                let (e, o) = self.mk(op.v);
                let m = vals_of(&self.sl[s].m);
                let was = sorted(&self.sl[s].m);
                let r = self.fx.go(|| {
                    let c = &self.sl[s].c;
                    (c.binary_search(&e), c.binary_search_by_key(o.val), c.is_sorted())
                });
                if self.judge(true, r.is_ok(), kind::MODEL) {
                    let (a, b, c) = r.ok().unwrap();
                    if c != was {
                        self.bad(kind::MODEL, &format!("is_sorted isn't {}", was));
                    }
                    for r in [a, b] {
                        let ok = match r {
                            Ok(i) => i < len && (!was || m[i] == o.val),
                            Err(i) => i <= len && (!was || (m[..i].iter().all(|x| *x < o.val) && m[i..].iter().all(|x| *x > o.val))),
                        };
                        if !ok {
                            self.bad(kind::MODEL, &format!("binary search for {} gave {:?}", o.val, r));
                        }
                    }
                }
            }
            O::Fixes => {
                // A sequence that may or may not be at either end.
                let a = op.a.min(len);
                let b = op.b.min(len).max(a);
                let mut want: Vec<u32> = self.sl[s].m[a..b].iter().map(|o| o.val).collect();
                if op.c == 1 && !want.is_empty() {
                    let l = want.len();
                    want[l - 1] = E::rep(want[l - 1] ^ 1);
                }
                if op.c == 2 {
                    want.push(E::rep(op.v));
                }
                let v: Vec<E> = want.iter().map(|x| E::make(*x)).collect();
                let m = vals_of(&self.sl[s].m);
                let r = self.fx.go(|| (self.sl[s].c.starts_with(&v), self.sl[s].c.ends_with(&v)));
                if self.judge(true, r.is_ok(), kind::MODEL) && r.ok() != Some((m.starts_with(&want), m.ends_with(&want))) {
                    self.bad(kind::MODEL, "starts_with or ends_with is wrong");
                }
            }
            O::Swap => {
                self.fam = kind::MODEL | kind::VIEW;
                if ring && op.c == 1 {
                    let (mut seen, mut apart) = ((Obs::default(), Obs::default()), true);
                    let r = self.fx.go(|| {
                        self.sl[s].c.map_pair(op.a, op.b, &mut |x, y| {
                            seen = (look(x), look(y));
                            apart = x as *mut E != y as *mut E || std::mem::size_of::<E>() == 0;
                            std::mem::swap(x, y)
                        })
                    });
                    if self.judge(op.a < len && op.b < len && op.a != op.b, r.is_ok(), kind::MODEL) {
                        let m = &mut self.sl[s].m;
                        let ok = seen == (m[op.a], m[op.b]);
                        m.swap(op.a, op.b);
                        if !ok {
                            self.bad(kind::MODEL, "map_pair showed the wrong items");
                        }
                        if !apart {
                            self.bad(kind::ALIAS, "map_pair gave the same item twice");
                        }
                    }
                    return;
                }
                let r = self.fx.go(|| self.sl[s].c.swap(op.a, op.b));
                if ring && op.a == op.b {
                    return; // A no-op, whatever the index.
                }
                if self.judge(op.a < len && op.b < len, r.is_ok(), kind::MODEL | kind::VIEW) {
                    self.sl[s].m.swap(op.a, op.b);
                }
            }
            O::Sort => {
                let how = op.c % 3;
                *aft = Aft::Perm(s);
                let r = self.fx.go(|| self.sl[s].c.sort(how));
                self.fam = kind::MODEL | kind::VIEW;
                if self.judge(true, r.is_ok(), self.fam) {
                    let now = self.peek(s);
                    if perm(&now, &self.sl[s].m) && sorted_how(&now, how) {
                        self.sl[s].m = now;
                    } else {
                        self.bad(kind::MODEL | kind::VIEW, &format!("sorting made {}", show(&now)));
                    }
                }
            }
            O::Iter => self.iterate(op, aft),
            O::View => self.views(s),
            O::ViewMut => {
                let nv = E::rep(op.v);
                let i = op.a;
                if ring || i >= len {
                    return;
                }
                self.fam = kind::VIEW;
                let want = vals_of(&self.sl[s].m);
                let r = self.fx.go(|| {
                    let x = self.sl[s].c.view_mut(op.b % VIEWS).unwrap();
                    let ok = x.len() == want.len() && x.iter().zip(&want).all(|(a, b)| a.val() == *b);
                    if op.c == 1 {
                        x.rotate_left(i);
                    } else if op.c == 2 {
                        x.reverse();
                    } else {
                        x[i].poke(nv);
                    }
                    ok
                });
                if self.judge(true, r.is_ok(), kind::VIEW) {
                    if r.ok() != Some(true) {
                        self.bad(kind::VIEW, "a mutable view shows something else");
                    }
                    if op.c == 1 {
                        self.sl[s].m.rotate_left(i);
                    } else if op.c == 2 {
                        self.sl[s].m.reverse();
                    } else {
                        self.sl[s].m[i].val = nv;
                    }
                }
            }
            O::IndexRange | O::IndexRangeMut => {
                if ring {
                    return;
                }
                let (a, b) = (op.a, op.b);
                self.fam = kind::VIEW;
                let form = op.c % 4;
                let hi = match form {
                    0 | 2 => Some(b),
                    1 => Some(len),
                    _ => b.checked_add(1),
                };
                let lo = if form == 2 { 0 } else { a };
                let ok = hi.map_or(false, |h| lo <= h && h <= len);
                let nv = E::rep(op.v);
                let r = self.fx.go(|| {
                    if op.o == O::IndexRange {
                        self.sl[s].c.index_range(a, b, form).unwrap().iter().map(look).collect::<Vec<_>>()
                    } else {
                        let x = self.sl[s].c.index_range_mut(a, b, form).unwrap();
                        let o = x.iter().map(look).collect::<Vec<_>>();
                        for e in x {
                            e.poke(nv);
                        }
                        o
                    }
                });
                if self.judge(ok, r.is_ok(), kind::VIEW) {
                    let h = hi.unwrap();
                    if r.ok().unwrap() != self.sl[s].m[lo..h] {
                        self.bad(kind::VIEW, "an indexed range shows something else");
                    }
                    if op.o == O::IndexRangeMut {
                        for o in &mut self.sl[s].m[lo..h] {
                            o.val = nv;
                        }
                    }
                }
            }
            O::Clone | O::PoolClone => {
                let (k, mark, clones) = (if op.o == O::Clone { kind::COPY } else { kind::POOL }, ledger().watermark(), ledger().clones);
                self.fam = k;
                if op.o == O::PoolClone || inl {
                    *aft = Aft::UnchangedLeaky;
                }
                let pool = self.k.pool_clone;
                if op.o == O::PoolClone && pool.is_none() {
                    return;
                }
                let r = self.fx.go(|| if op.o == O::Clone { self.sl[s].c.clone_c() } else { pool.unwrap()(&*self.sl[s].c, op.a as u8) }).ok();
                let m = self.cloned(s, mark, clones, k);
                self.put(t, r, m, k, true);
                self.any_order(t);
            }
            O::PoolDefault => {
                let f = match self.k.pool_default {
                    Some(f) => f,
                    None => return,
                };
                self.fam = kind::POOL;
                let r = self.fx.go(|| f(op.a as u8)).ok();
                self.put(t, r, vec![], kind::POOL, true);
            }
            O::CloneFrom => {
                let (mark, clones) = (ledger().watermark(), ledger().clones);
                self.fam = kind::COPY;
                let made: Vec<Obs> = self.sl[s].m.iter().enumerate().map(|(i, o)| Obs { uid: if E::UID { mark + i as u64 } else { 0 }, val: o.val }).collect();
                *aft = Aft::Fresh(t, made);
                let (x, y) = two(&mut self.sl, s, t);
                let r = self.fx.go(|| y.c.clone_from_c(&*x.c));
                if self.judge(true, r.is_ok(), kind::COPY) {
                    self.sl[t].m = self.cloned(s, mark, clones, kind::COPY);
                    self.any_order(t);
                }
            }
            O::Rel => {
                self.fam = kind::REL;
                let (x, y) = (&self.sl[s], &self.sl[t]);
                let r = self.fx.go(|| x.c.rel(&*y.c));
                let (a, b) = (vals_of(&x.m), vals_of(&y.m));
                if self.judge(true, r.is_ok(), kind::REL) {
                    self.check_rel(r.ok().unwrap(), &a, &b);
                }
                if self.fx.fired.is_some() {
                    return;
                }
                // Against plain data: the same, a changed one, a prefix.
                let mut data = vec![a.clone(), b];
                if !a.is_empty() {
                    let mut c = a.clone();
                    let i = op.a % c.len();
                    c[i] = E::rep(c[i] ^ 1);
                    data.push(c);
                    data.push(a[..a.len() - 1].to_vec());
                }
                for d in data {
                    let v: Vec<E> = d.iter().map(|x| E::make(*x)).collect();
                    let r = self.fx.go(|| (self.sl[s].c.eq_slice(&v), self.sl[s].c.eq_vec(&v)));
                    if self.fx.fired.is_some() {
                        return;
                    }
                    let want = a == d;
                    if self.judge(true, r.is_ok(), kind::REL) && r.ok() != Some((want, want)) {
                        self.bad(kind::REL, "comparison with a slice or vector is wrong");
                    }
                }
            }
            O::Layout => {
                self.fam = kind::LAYOUT;
                if let Err(m) = self.sl[s].c.layout() {
                    self.bad(kind::LAYOUT, &m);
                }
            }
            O::ToChunk => {
                let f = match self.k.to_chunk {
                    Some(f) => f,
                    None => return,
                };
                self.fam = kind::COPY | kind::MODEL;
                let cap = CHUNKS[op.a % CHUNKS.len()];
                let byval = op.c % 2 == 1;
                let clones = ledger().clones;
                let m = std::mem::take(&mut self.sl[s].m);
                let (v, o) = self.mks(op.v, 2);
                *aft = Aft::Subseq(s);
                let r = self.fx.go(|| f(&mut *self.sl[s].c, op.a, byval, v));
                let ok = len <= cap;
                if !ok && !byval || self.fx.fired.is_some() {
                    self.sl[s].m = m.clone();
                }
                if self.judge(ok, r.is_ok(), kind::COPY) {
                    let (was, then) = r.ok().unwrap();
                    if was != m {
                        self.bad(kind::COPY, &format!("converting to a Chunk<_, {}> gave {} instead of {}", cap, show(&was), show(&m)));
                    }
                    let mut want = m.clone();
                    if want.len() < cap {
                        want.insert(0, o[0]);
                    }
                    if want.len() < cap {
                        want.push(o[1]);
                    }
                    if then != want {
                        self.bad(kind::COPY, &format!("a Chunk<_, {}> made from {} and pushed to holds {}", cap, show(&m), show(&then)));
                    }
                    if ledger().clones != clones {
                        self.bad(kind::COPY | kind::COST, "converting to a Chunk cloned elements");
                    }
                }
            }
            O::Fmt => {
                self.fam = kind::VIEW;
                let r = self.fx.go(|| (self.sl[s].c.debug(false), self.sl[s].c.debug(true)));
                if self.judge(true, r.is_ok(), kind::VIEW) {
                    let v: Vec<Raw> = self.sl[s].m.iter().map(|o| Raw(E::dbg(o.val))).collect();
                    let (a, b) = r.ok().unwrap();
                    let cut = |x: &str| x[x.find('[').unwrap_or(0)..].to_string();
                    if cut(&a) != format!("{:?}", v) || cut(&b) != format!("{:#?}", v) {
                        self.bad(kind::VIEW, &format!("Debug shows {}", a));
                    }
                }
            }
            O::Slice => self.slices(op, aft),
            O::SliceRel => {
                if !ring {
                    return;
                }
                self.fam = kind::SLICE | kind::REL;
                let tl = self.sl[t].m.len();
                let (a, b) = (op.a.min(len), op.b.min(len));
                let (c, d) = (op.c.min(tl), (op.v as usize).min(tl));
                let (a, b, c, d) = (a.min(b), a.max(b), c.min(d), c.max(d));
                let rg = |x, y| (Bound::Included(x), Bound::Excluded(y));
                let p = vals_of(&self.sl[s].m)[a..b].to_vec();
                let q = vals_of(&self.sl[t].m)[c..d].to_vec();
                let r = self.fx.go(|| self.sl[s].c.slice_rel(rg(a, b), &*self.sl[t].c, rg(c, d)));
                if self.judge(true, r.is_ok(), self.fam) {
                    self.check_rel(r.ok().unwrap(), &p, &q);
                }
                if self.fx.fired.is_some() {
                    return;
                }
                let (x, y) = two(&mut self.sl, s, t);
                let r = self.fx.go(|| x.c.slice_rel_mut(rg(a, b), &mut *y.c, rg(c, d)));
                if self.judge(true, r.is_ok(), self.fam) {
                    self.check_rel(r.ok().unwrap(), &p, &q);
                }
            }
            O::Write => {
                let f = match self.k.write {
                    Some(f) => f,
                    None => return,
                };
                self.fam = kind::IO;
                let bytes: Vec<u8> = (0..op.b).map(|i| (op.v as usize + i) as u8).collect();
                let n = op.b.min(cap - len);
                let r = self.fx.go(|| f(&mut *self.sl[s].c, &bytes));
                if self.judge(true, r.is_ok(), kind::IO) {
                    let r = r.ok().unwrap();
                    if r != Some(n) {
                        self.bad(kind::IO, &format!("writing {} bytes gave {:?} instead of {}", op.b, r, n));
                    }
                    self.sl[s].m.extend(bytes[..n].iter().map(|b| Obs { uid: 0, val: *b as u32 }));
                }
            }
            O::Read => {
                let f = match self.k.read {
                    Some(f) => f,
                    None => return,
                };
                self.fam = kind::IO;
                let mut buf = vec![0xEEu8; op.b];
                let n = op.b.min(len);
                let r = self.fx.go(|| f(&mut *self.sl[s].c, &mut buf));
                if self.judge(true, r.is_ok(), kind::IO) {
                    let r = r.ok().unwrap();
                    let want: Vec<u8> = self.sl[s].m.drain(..n).map(|o| o.val as u8).collect();
                    if r != Some(n) || buf[..n] != want[..] || buf[n..].iter().any(|b| *b != 0xEE) {
                        self.bad(kind::IO, &format!("reading {} bytes gave {:?} and {:?} instead of {} and {:?}", op.b, r, buf, n, want));
                    }
                }
            }
        }
    }

    /// The observations of fresh clones of a slot's items.
    fn cloned(&mut self, s: usize, mark: u64, clones: u64, k: Kinds) -> Vec<Obs> {
        let n = self.sl[s].m.len() as u64;
        if self.fx.fired.is_none() && E::CLONES && ledger().clones - clones != n {
            self.bad(k, &format!("cloning {} elements made {} clones", n, ledger().clones - clones));
        }
        self.sl[s].m.iter().enumerate().map(|(i, o)| Obs { uid: if E::UID { mark + i as u64 } else { 0 }, val: o.val }).collect()
    }

    /// Fresh clones are identified in the order they were made, which may be
    /// any: take the identities as they are where the values fit.
    fn any_order(&mut self, s: usize) {
        if !E::UID || self.dead || self.fx.fired.is_some() {
            return;
        }
        let now = self.peek(s);
        if vals_of(&now) == vals_of(&self.sl[s].m) {
            let ids = |m: &[Obs]| {
                let mut v: Vec<u64> = m.iter().map(|o| o.uid).collect();
                v.sort_unstable();
                v
            };
            if ids(&now) == ids(&self.sl[s].m) {
                self.sl[s].m = now;
            }
        }
    }

    /// A freshly made container, if it was made, replaces slot `t`.
    fn put(&mut self, t: usize, c: Option<SB<E>>, m: Vec<Obs>, k: Kinds, must: bool) {
        if self.judge(must, c.is_some(), k) || (c.is_some() && self.fx.fired.is_none()) {
            let old = std::mem::replace(&mut self.sl[t].c, c.unwrap());
            self.sl[t].m = m;
            if !call(|| drop(old)).is_ok() {
                self.bad(kind::MODEL, "dropping a container panicked");
            }
        }
    }

    /// The bounds that the iterator of this call gives, and whether they are wrong.
    fn hinted(&mut self, op: &Op, room: usize) -> ((usize, Option<usize>), bool) {
        let h = hint(op.c, op.b, room, self.k.cap);
        let lie = h.0 > op.b || h.1.map_or(false, |h| h < op.b);
        if lie {
            self.run.count("lying_bounds", 1);
        }
        (h, lie)
    }

    fn collected(&mut self, t: usize, c: Option<SB<E>>, m: Vec<Obs>, must: bool, lie: bool) {
        let k = kind::MODEL | kind::BULK;
        if !lie {
            return self.put(t, c, m, k, must);
        }
        // Any prefix of what was there.
        match c {
            Some(c) => {
                let n = c.len();
                if n > self.k.cap || n > m.len() {
                    self.bad(kind::BULK, &format!("collected {} items of {}", n, m.len()));
                    std::mem::forget(c);
                    self.dead = true;
                } else {
                    self.put(t, Some(c), m[..n].to_vec(), k, true);
                }
            }
            None => {
                self.refused = true;
                self.run.refused += 1;
            }
        }
    }

    fn extended(&mut self, s: usize, did: bool, mut o: Vec<Obs>) {
        let room = self.k.cap - self.sl[s].m.len();
        let fits = o.len() <= room;
        let fam = self.fam;
        if self.judge(fits, did, fam) {
            self.sl[s].m.append(&mut o);
        } else if self.refused {
            // What fits may have been taken.
            self.fam = fam;
            let now = self.peek(s);
            let m = &self.sl[s].m;
            if now.len() >= m.len() && now[..m.len()] == m[..] && now.len() - m.len() <= o.len() && now[m.len()..] == o[..now.len() - m.len()] {
                self.sl[s].m = now;
            }
        }
    }

    /// An iterator that has given so many items more than can fit stands for one
    /// that never ends: a call that goes on drawing from it never returns.
    fn endless(&mut self, pulled: usize) {
        if self.k.cap < 10_000 && pulled > self.k.cap + ENDLESS / 2 {
            self.bad(kind::BULK, &format!("drew {} items from an iterator without end", pulled));
        }
    }

    fn insert_from(&mut self, op: &Op, aft: &mut Aft) {
        // a: index, b: items delivered, c and p[0]: announced at first and afterwards.
        let s = op.s;
        let fam = kind::MODEL | kind::BULK;
        self.fam = fam;
        let len = self.sl[s].m.len();
        let room = self.k.cap - len;
        let (v, o) = self.mks(op.v, op.b);
        let later = op.p.first().copied().unwrap_or(op.c);
        let pulled = Cell::new(0);
        let it = LyIter { items: v.into_iter(), ann: (op.c, later), asked: Cell::new(0), pulled: &pulled };
        *aft = Aft::Any(s, o.clone());
        let r = self.fx.go(|| self.sl[s].c.insert_from(op.a, it));
        if self.fx.fired.is_some() {
            return;
        }
        self.endless(pulled.get());
        let honest = op.c == op.b && later == op.b;
        if honest {
            if self.judge(op.a <= len && op.b <= room, r.is_ok(), fam) {
                let tail = self.sl[s].m.split_off(op.a);
                self.sl[s].m.extend(o);
                self.sl[s].m.extend(tail);
            }
            return;
        }
        self.run.count("lying_iterators", 1);
        let must_refuse = op.a > len || (op.c > room && later > room);
        if must_refuse {
            self.judge(false, r.is_ok(), fam);
            return;
        }
        let now = self.peek(s);
        let m = self.sl[s].m.clone();
        if r.is_ok() {
            // A prefix of what was delivered is in place.
            let k = now.len().wrapping_sub(len);
            if now.len() < len || k > o.len() || now[..op.a] != m[..op.a] || now[op.a..op.a + k] != o[..k] || now[op.a + k..] != m[op.a..] {
                self.bad(kind::BULK, &format!("insert_from made {}", show(&now)));
            } else {
                self.sl[s].m = now;
            }
        } else {
            self.refused = true;
            self.run.refused += 1;
            self.leaky(s, now, &o, kind::BULK);
        }
    }

    /// Slot `s` now holds `now`: any of what it held and `extra`, once each.
    fn leaky(&mut self, s: usize, now: Vec<Obs>, extra: &[Obs], k: Kinds) {
        if now.len() > self.k.cap {
            self.bad(k, "holds more than its capacity");
            self.dead = true;
            return;
        }
        let mut pool: Vec<Obs> = self.sl[s].m.iter().chain(extra).copied().collect();
        for o in &now {
            match pool.iter().position(|p| p == o) {
                Some(i) => {
                    pool.swap_remove(i);
                }
                None => {
                    self.bad(k, &format!("holds an item it was never given: {}", show(&now)));
                    return;
                }
            }
        }
        self.sl[s].m = now;
        // What was leaked is gone for good.
        self.settle_leak();
    }

    fn settle_leak(&mut self) {
        if !E::COUNTED {
            return;
        }
        let held: usize = (0..self.sl.len()).map(|i| self.sl[i].m.len()).sum();
        let l = E::live() - held as isize - self.leaked;
        if l > 0 {
            self.leaked += l;
            self.run.count("leaks_allowed", l as u64);
        }
    }

    fn iterate(&mut self, op: &Op, aft: &mut Aft) {
        let s = op.s;
        self.fam = kind::ITER;
        let m = self.sl[s].m.clone();
        let fin = op.b % FINS;
        let (want, (lo, hi)) = drive_model(&m, &op.p, fin);
        let kinds = op.a % 6;
        match kinds {
            0 | 1 => {
                let r = self.fx.go(|| {
                    let c = &self.sl[s].c;
                    let it = if kinds == 0 { c.iter() } else { c.iter_ref() };
                    drive(it, &op.p, fin, &mut |e| look(e))
                });
                if self.judge(true, r.is_ok(), kind::ITER) {
                    self.iterated(&want, r.ok().unwrap(), kind::ITER);
                }
            }
            2 | 3 => {
                self.fam = kind::ITER | kind::ALIAS | kind::VIEW;
                let run = &mut *self.run;
                let r = self.fx.go(|| {
                    let c = &mut self.sl[s].c;
                    let it = if kinds == 2 { c.iter_mut() } else { c.iter_mut_ref() };
                    let mut refs: Vec<&mut E> = Vec::new();
                    let ev = drive(it, &op.p, fin, &mut |e| {
                        let o = look(e);
                        refs.push(e);
                        o
                    });
                    if ledger().fired.is_some() {
                        return (ev, vec![], vec![]);
                    }
                    let uids: Vec<Obs> = refs.iter().map(|e| look(&**e)).collect();
                    let vals = exercise(run, &mut refs, op.v);
                    (ev, uids, vals)
                });
                if self.judge(true, r.is_ok(), kind::ITER) {
                    let (ev, uids, vals) = r.ok().unwrap();
                    let n = self.run.counts.entry("references_held_together".into()).or_insert(0);
                    *n += vals.len() as u64;
                    if self.iterated(&want, ev.clone(), kind::ITER) {
                        // Where each of the items came from, in order of production.
                        let order = drive_order(m.len(), &op.p, fin);
                        if order.len() != uids.len() {
                            die("order of production");
                        }
                        for (i, v) in order.iter().zip(vals) {
                            self.sl[s].m[*i].val = v;
                        }
                    }
                }
            }
            4 => {
                self.fam = kind::ITER | kind::MODEL;
                *aft = Aft::Window(s);
                let mut held: Vec<E> = Vec::new();
                let r = self.fx.go(|| {
                    let it = self.sl[s].c.drain();
                    drive(it, &op.p, fin, &mut |e| {
                        let o = look(&e);
                        held.push(e);
                        o
                    })
                });
                if self.judge(true, r.is_ok(), self.fam) {
                    self.iterated(&want, r.ok().unwrap(), kind::ITER | kind::MODEL);
                    self.sl[s].m = m[lo..hi].to_vec();
                    if fin == FORGET {
                        // Forgotten: it may leak, but what was yielded is gone.
                        drop(held);
                        let now = self.peek(s);
                        self.leaky(s, now, &[], kind::ITER | kind::MODEL | kind::LEDGER);
                    }
                }
            }
            _ => {
                self.fam = kind::ITER | kind::MODEL;
                let c = std::mem::replace(&mut self.sl[s].c, (self.k.new)());
                self.sl[s].m.clear();
                let mut held: Vec<E> = Vec::new();
                let r = self.fx.go(|| {
                    drive(c.into_iter(), &op.p, fin, &mut |e| {
                        let o = look(&e);
                        held.push(e);
                        o
                    })
                });
                if self.judge(true, r.is_ok(), self.fam) {
                    self.iterated(&want, r.ok().unwrap(), kind::ITER | kind::MODEL);
                    if fin == FORGET {
                        drop(held);
                        self.settle_leak();
                    }
                }
            }
        }
    }

    fn iterated(&mut self, want: &[Ev], got: Vec<Ev>, k: Kinds) -> bool {
        if want != &got[..] {
            let i = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
            self.bad(k, &format!("an iterator differs at event {}: {:?} instead of {:?}", i, got.get(i), want.get(i)));
            return false;
        }
        true
    }

    fn views(&mut self, s: usize) {
        self.fam = kind::VIEW;
        let m = self.sl[s].m.clone();
        let r = self.fx.go(|| {
            let c = &self.sl[s].c;
            let n = c.len();
            let addr: Vec<usize> = (0..n).map(|i| c.index(i) as *const E as usize).collect();
            let size = std::mem::size_of::<E>();
            let (lo, hi) = (c.base(), c.base() + c.size());
            let mut msg = String::new();
            for i in 0..n {
                let g = c.get(i).map(|e| e as *const E as usize);
                let u = c.get_unchecked(i) as *const E as usize;
                if g != Some(addr[i]) || u != addr[i] {
                    msg = format!("get and index disagree about the place of item {}", i);
                }
                if addr[i] < lo || addr[i] + size > hi || addr[i] % std::mem::align_of::<E>() != 0 {
                    msg = format!("item {} is outside the container or misaligned", i);
                }
            }
            if size > 0 {
                let mut a = addr.clone();
                a.sort_unstable();
                if a.windows(2).any(|w| w[1] - w[0] < size) {
                    msg = "items overlap".into();
                }
            }
            for w in 0..VIEWS {
                if let Some(v) = c.view(w) {
                    let a: Vec<usize> = v.iter().map(|e| e as *const E as usize).collect();
                    if a != addr {
                        msg = format!("view {} shows other places", w);
                    }
                }
            }
            for (w, it) in [c.iter(), c.iter_ref()].into_iter().enumerate() {
                let a: Vec<usize> = it.map(|e| e as *const E as usize).collect();
                if a != addr {
                    msg = format!("iterator {} shows other places", w);
                }
            }
            if c.ring() {
                let x = c.slice_whole();
                let a: Vec<usize> = x.iter().map(|e| e as *const E as usize).collect();
                if a != addr {
                    msg = "the whole slice shows other places".into();
                }
            }
            (msg, (0..n).map(|i| look(c.index(i))).collect::<Vec<_>>())
        });
        let r2 = self.fx.go(|| {
            let c = &mut self.sl[s].c;
            let n = c.len();
            let addr: Vec<usize> = (0..n).map(|i| c.index_mut(i) as *mut E as usize).collect();
            let mut msg = String::new();
            for i in 0..n {
                let g = c.get_mut(i).map(|e| e as *mut E as usize);
                let u = c.get_unchecked_mut(i) as *mut E as usize;
                if g != Some(addr[i]) || u != addr[i] {
                    msg = format!("get_mut and index_mut disagree about the place of item {}", i);
                }
            }
            for w in 0..VIEWS {
                if let Some(v) = c.view_mut(w) {
                    let a: Vec<usize> = v.iter_mut().map(|e| e as *mut E as usize).collect();
                    if a != addr {
                        msg = format!("mutable view {} shows other places", w);
                    }
                }
            }
            let a: Vec<usize> = c.iter_mut().map(|e| e as *mut E as usize).collect();
            let b: Vec<usize> = c.iter_mut_ref().map(|e| e as *mut E as usize).collect();
            if a != addr || b != addr {
                msg = "iter_mut shows other places".into();
            }
            (msg, addr)
        });
        if self.judge(true, r.is_ok() && r2.is_ok(), kind::VIEW) {
            let (msg, obs) = r.ok().unwrap();
            let (msg2, _) = r2.ok().unwrap();
            for m in [msg, msg2] {
                if !m.is_empty() {
                    self.bad(kind::VIEW, &m);
                }
            }
            if obs != m {
                self.bad(kind::VIEW, "indexing shows other items");
            }
        }
    }

    fn check_rel(&mut self, r: Rel, a: &[u32], b: &[u32]) {
        let eq = a == b;
        let ord = a.cmp(b);
        let mut ok = r.eq.iter().all(|x| *x == eq) && r.ne.iter().all(|x| *x != eq);
        ok &= r.cmp.iter().all(|x| *x == ord) && r.pcmp.iter().all(|x| *x == Some(ord));
        ok &= r.rel.iter().all(|x| *x == [ord == Ordering::Less, ord != Ordering::Greater, ord == Ordering::Greater, ord != Ordering::Less]);
        if !ok {
            self.bad(self.fam, &format!("comparing {:?} with {:?} gave {:?}", a, b, r));
        }
        let all_same = |v: &[u64]| v.windows(2).all(|w| w[0] == w[1]);
        if !all_same(&r.hash_l) || !all_same(&r.hash_r) {
            self.bad(kind::REL, "a container and what it can be borrowed as hash differently");
        }
        if eq && r.hash_l.first() != r.hash_r.first() {
            self.bad(self.fam, "equal values hash differently");
        }
        self.run.count(if eq { "equal_pairs" } else { "unequal_pairs" }, 1);
    }

    /// p: form,a,b | form,a,b,kind ... ; c: what to do; a: mutable; b: whole.
    fn slices(&mut self, op: &Op, aft: &mut Aft) {
        if !self.k.ring {
            return;
        }
        self.fam = kind::SLICE;
        let s = op.s;
        let m = self.sl[s].m.clone();
        let mutable = op.a % 2 == 1;
        // Where the window ends up.
        let (mut lo, mut hi) = (0, m.len());
        let mut ok = true;
        let mut steps = Vec::new();
        let mut i = 0;
        let whole = op.b % 2 == 1;
        while i + 3 < op.p.len() {
            let (form, a, b, how) = (op.p[i], op.p[i + 1], op.p[i + 2], op.p[i + 3]);
            i += 4;
            if !ok {
                break;
            }
            let n = hi - lo;
            if steps.is_empty() || how == 0 {
                if steps.is_empty() && whole {
                    steps.push((0, range_of(5, 0, 0), 0));
                    continue;
                }
                let r = range_of(form, a, b);
                match parse_range(r, n) {
                    Some((x, y)) => {
                        hi = lo + y;
                        lo += x;
                    }
                    None => ok = false,
                }
                steps.push((0, r, 0));
            } else {
                // split_at, then the left or the right half.
                if a > n {
                    ok = false;
                } else if how == 1 {
                    hi = lo + a;
                } else {
                    lo += a;
                }
                if self.cfg.nokf && mutable {
                    // The same window without split_at.
                    steps.push((0, if how == 1 { range_of(3, 0, a) } else { range_of(2, a, 0) }, a));
                } else {
                    steps.push((how, range_of(5, 0, 0), a));
                }
            }
        }
        if steps.is_empty() {
            steps.push((0, range_of(5, 0, 0), 0));
        }
        let n = hi - lo;
        let x = op.p.get(op.p.len().wrapping_sub(2)).copied().unwrap_or(0);
        let y = op.p.last().copied().unwrap_or(0);
        let act = op.c % 17;
        let (e, eo) = self.mk(op.v);
        let (fill, fobs) = self.mks(op.v.wrapping_add(50), 1);
        let mut spare = Some(e);
        let nokf = self.cfg.nokf;
        let win: Vec<Obs> = m[lo..hi].to_vec();
        let wvals = vals_of(&win);
        let was = sorted(&win);
        let fam = kind::SLICE;
        if matches!(act, 11 | 14) {
            *aft = Aft::Perm(s);
        }
        let mut after = m.clone();
        let nv = E::rep(op.v);
        let mark = ledger().watermark();
        let mut made: Option<SB<E>> = None;
        let mut old: Option<E> = None;
        let mut rd = String::new();
        let pat = &op.p[..op.p.len().min(4)];
        let pat: Vec<usize> = pat.iter().map(|p| [0, 1, 0, 1, 2, 10, 3, 11][p % 8]).collect();
        let fin = (op.v as usize) % FINS;
        let mut evs: Option<Vec<Ev>> = None;
        let mut alias_vals: Vec<u32> = vec![];
        let mut alias_bad = false;
        let mut act_ok = true;
        let run = &mut *self.run;
        let r = self.fx.go(|| {
            let c = &mut self.sl[s].c;
            let mut w: Box<dyn Sl<E> + '_> = match (mutable, whole) {
                (false, false) => c.slice(steps[0].1),
                (false, true) => c.slice_whole(),
                (true, false) => c.slice_mut(steps[0].1),
                (true, true) => c.slice_mut_whole(),
            };
            for st in &steps[1..] {
                w = match st.0 {
                    0 => w.slice(st.1),
                    1 => w.split_at(st.2).0,
                    _ => w.split_at(st.2).1,
                };
            }
            if w.len() != n {
                rd = format!("slice has length {} instead of {}", w.len(), n);
                return;
            }
            match act {
                0 | 12 => {
                    if act == 12 && mutable {
                        w = w.unmut();
                    }
                    let w2 = w.dup();
                    let w = w2.unwrap_or(w);
                    read_slice(&*w, &win, &wvals, was, &spare, &fill[0], fobs[0].val, &mut rd);
                }
                1 => {
                    act_ok = x < n;
                    let _ = look(w.index(x));
                }
                2 => {
                    let g = w.get(x).map(look);
                    if g != win.get(x).copied() {
                        rd = format!("get({}) gave {:?}", x, g);
                    }
                }
                3 => evs = Some(drive(if x % 2 == 0 { w.iter() } else { w.iter_ref() }, &pat, fin, &mut |e| look(e))),
                4 => made = Some(w.to_owned()),
                5 if mutable => old = w.set(x, spare.take().unwrap()),
                6 if mutable => {
                    let g = w.get_mut(x).map(|e| {
                        let o = look(e);
                        e.poke(nv);
                        o
                    });
                    if g != win.get(x).copied() {
                        rd = format!("get_mut({}) gave {:?}", x, g);
                    }
                }
                7 if mutable => {
                    act_ok = x < n;
                    if act_ok && y % 2 == 1 {
                        w.get_unchecked_mut(x).poke(nv);
                    } else {
                        w.index_mut(x).poke(nv);
                    }
                }
                8 if mutable => {
                    let a = w.first_mut().map(|e| {
                        let o = look(e);
                        e.poke(nv);
                        o
                    });
                    if a != win.first().copied() {
                        rd = format!("first_mut gave {:?}", a);
                    }
                    let b = w.last_mut().map(|e| {
                        let o = look(e);
                        e.poke(nv);
                        o
                    });
                    if n > 1 && b != win.last().copied() || n == 0 && b.is_some() {
                        rd = format!("last_mut gave {:?}", b);
                    }
                }
                9 if mutable => {
                    let mut refs: Vec<&mut E> = Vec::new();
                    evs = Some(drive(w.iter_mut(), &pat, fin, &mut |e| {
                        let o = look(e);
                        refs.push(e);
                        o
                    }));
                    if ledger().fired.is_none() {
                        alias_vals = exercise(run, &mut refs, nv);
                    }
                }
                10 if mutable => {
                    act_ok = x == y || (x < n && y < n);
                    w.swap(x, y);
                }
                15 if mutable => {
                    act_ok = x != y && x < n && y < n;
                    w.map_pair(x, y, &mut |a, b| {
                        if (Some(&look(a)), Some(&look(b))) != (win.get(x), win.get(y)) {
                            rd = "map_pair showed the wrong items".into();
                        }
                        alias_bad |= std::mem::size_of::<E>() > 0 && a as *mut E == b as *mut E;
                        std::mem::swap(a, b)
                    });
                }
                16 if mutable => {
                    let mut k = 0;
                    w.each_mut(
                        &mut |e| {
                            let i = if y % 2 == 1 { n.wrapping_sub(1 + k) } else { k };
                            if win.get(i) != Some(&look(e)) {
                                rd = format!("iteration by mutable reference shows {:?} at {}", look(e), k);
                            }
                            e.poke(E::rep(nv.wrapping_add(i as u32)));
                            k += 1;
                        },
                        y % 2 == 1,
                    );
                    if k != n {
                        rd = format!("iteration by mutable reference shows {} items instead of {}", k, n);
                    }
                }
                11 if mutable => w.sort(x % 3),
                14 if mutable && !nokf => {
                    // Sorting one half leaves alone what is held of the other.
                    act_ok = x <= n;
                    let (mut l, mut r) = w.split_at(x);
                    let b = if y % 2 == 0 { win[x..].to_vec() } else { win[..x].to_vec() };
                    let (sorter, holder) = if y % 2 == 0 { (&mut l, &mut r) } else { (&mut r, &mut l) };
                    let mut held: Vec<&mut E> = holder.iter_mut().collect();
                    sorter.sort(0);
                    if held.len() != b.len() || held.iter_mut().zip(&b).any(|(e, o)| look(&**e) != *o) {
                        alias_bad = true;
                    }
                }
                13 if mutable && nokf => {}
                13 => {
                    act_ok = x <= n;
                    let (mut l, mut r) = w.split_at(x);
                    if l.len() != x || r.len() != n - x {
                        rd = "split halves have the wrong lengths".into();
                        return;
                    }
                    if !mutable || !nokf {
                        // Both halves in turns.
                        for i in 0..n {
                            let j = n - 1 - i;
                            let g = if j < x { l.get(j).map(look) } else { r.get(j - x).map(look) };
                            if g != Some(win[j]) {
                                rd = format!("split half shows {:?} at {}", g, j);
                            }
                        }
                        if l.get(x).is_some() || r.get(n - x).is_some() {
                            rd = "a split half reaches beyond itself".into();
                        }
                        if mutable {
                            let mut refs: Vec<&mut E> = Vec::new();
                            let (mut a, mut b) = (l.iter_mut(), r.iter_mut());
                            loop {
                                let (p, q) = (a.next_back(), b.next());
                                if p.is_none() && q.is_none() {
                                    break;
                                }
                                refs.extend(p);
                                refs.extend(q);
                            }
                            alias_vals = exercise(run, &mut refs, nv);
                            drop(refs);
                            drop((a, b));
                            // In order of production: from the split outwards.
                            let mut k = 0;
                            for d in 0..n {
                                if d < x {
                                    after[lo + x - 1 - d].val = alias_vals[k];
                                    k += 1;
                                }
                                if d < n - x {
                                    after[lo + x + d].val = alias_vals[k];
                                    k += 1;
                                }
                            }
                            for j in 0..n {
                                let g = if j < x { l.get(j).map(|e| e.val()) } else { r.get(j - x).map(|e| e.val()) };
                                if g != Some(after[lo + j].val) {
                                    alias_bad = true;
                                }
                            }
                        }
                    }
                }
                _ => {
                    let w = if mutable { w.unmut() } else { w };
                    read_slice(&*w, &win, &wvals, was, &spare, &fill[0], fobs[0].val, &mut rd);
                }
            }
        });
        if alias_bad {
            self.bad(kind::SLICE | kind::ALIAS, "writes through the halves of a split don't show");
        }
        if !self.judge(ok && act_ok, r.is_ok(), fam) {
            return;
        }
        if !rd.is_empty() {
            self.bad(fam | kind::VIEW, &rd);
        }
        match act {
            3 | 9 => {
                if let Some(ev) = evs {
                    let (want, _) = drive_model(&win, &pat, fin);
                    if self.iterated(&want, ev, fam) && act == 9 {
                        for (i, v) in drive_order(n, &pat, fin).iter().zip(alias_vals) {
                            after[lo + *i].val = v;
                        }
                    }
                    if act == 9 {
                        self.fam = kind::SLICE | kind::ALIAS;
                    }
                }
            }
            4 => {
                let want: Vec<Obs> = win.iter().enumerate().map(|(i, o)| Obs { uid: if E::UID { mark + i as u64 } else { 0 }, val: o.val }).collect();
                let t = (s + 1) % 3;
                self.put(t, made, want, fam | kind::COPY, true);
                self.fam = kind::SLICE | kind::COPY;
                self.any_order(t);
                self.check_slot(t);
            }
            5 if mutable => {
                let want = win.get(x).copied();
                self.same(old.as_ref().map(look), want, fam, "slice set");
                if x < n {
                    after[lo + x] = eo;
                }
            }
            6 | 7 if mutable => {
                if x < n {
                    after[lo + x].val = nv;
                }
            }
            8 if mutable => {
                if n > 0 {
                    after[lo].val = nv;
                    after[hi - 1].val = nv;
                }
            }
            10 if mutable => {
                if x != y {
                    after.swap(lo + x, lo + y);
                }
            }
            15 if mutable => after.swap(lo + x, lo + y),
            16 if mutable => {
                for (i, o) in after[lo..hi].iter_mut().enumerate() {
                    o.val = E::rep(nv.wrapping_add(i as u32));
                }
            }
            14 if mutable && !nokf => {
                let now = self.peek(s);
                let (a, b) = if y % 2 == 0 { (lo, lo + x) } else { (lo + x, hi) };
                if now.len() == m.len() && now[..a] == m[..a] && now[b..] == m[b..] && sorted(&now[a..b]) && perm(&now[a..b], &m[a..b]) {
                    after = now;
                } else {
                    self.bad(fam, "sorting half of a slice");
                }
            }
            11 if mutable => {
                let now = self.peek(s);
                if now.len() == m.len() && now[..lo] == m[..lo] && now[hi..] == m[hi..] && sorted_how(&now[lo..hi], x % 3) && perm(&now[lo..hi], &win) {
                    after = now;
                } else {
                    self.bad(fam, "sorting a slice");
                }
            }
            13 if mutable => self.fam = kind::SLICE | kind::ALIAS,
            _ => {}
        }
        self.sl[s].m = after;
    }

    /// Read a slot's items without checking them against the model.
    fn peek(&mut self, s: usize) -> Vec<Obs> {
        let c = &self.sl[s].c;
        let cap = self.k.cap;
        match call(|| (0..c.len().min(cap.saturating_add(1)).min(self.k.lim + 4096)).map(|i| c.get(i).map(look)).collect::<Option<Vec<_>>>()) {
            Res::Ok(Some(v)) => v,
            _ => {
                self.bad(self.fam | kind::MODEL, "reading the items by index failed");
                self.dead = true;
                vec![]
            }
        }
    }

    /// One slot against its model.
    fn check_slot(&mut self, i: usize) {
        let now = self.peek(i);
        if self.dead {
            return;
        }
        if now != self.sl[i].m {
            if !self.adopt {
                let msg = format!("slot {} holds {} instead of {}", i, show(&now), show(&self.sl[i].m));
                self.bad(self.fam, &msg);
            }
            self.sl[i].m = now;
        }
    }

    /// Everything against the model.
    fn verify(&mut self, s: usize, t: usize) {
        let name = self.run.log.rsplit('\n').next().unwrap_or("").to_string();
        self.run.ledger_errs(&name);
        if self.dead {
            return;
        }
        let mut seen: Vec<u64> = Vec::new();
        let mut total = 0isize;
        for i in 0..self.sl.len() {
            if !self.sl[i].c.intact() {
                self.bad(kind::CANARY, "memory next to a container changed");
                self.dead = true;
                return;
            }
            let len = self.sl[i].c.len();
            if len > self.k.cap {
                self.bad(self.fam | kind::MODEL | kind::BULK, &format!("length {} exceeds the capacity", len));
                self.dead = true;
                return;
            }
            let fam = self.fam;
            let operand = i == s || i == t;
            if cfg!(miri) && !operand && self.run.ops % 8 != 0 {
                // Miri has little time.
                total += self.sl[i].m.len() as isize;
                continue;
            }
            if !operand {
                self.fam = fam | kind::MODEL | kind::COPY;
            }
            let adopt = self.adopt;
            self.adopt = adopt && operand;
            self.check_slot(i);
            self.fam = fam;
            self.adopt = adopt;
            if self.dead {
                self.run.ledger_errs(&name);
                return;
            }
            let (e, f) = (self.sl[i].c.is_empty(), self.sl[i].c.is_full());
            if e != (len == 0) || f != (len == self.k.cap) {
                self.bad(fam | kind::MODEL, &format!("is_empty is {} and is_full is {} at length {} of {}", e, f, len, self.k.cap));
            }
            if operand && self.cfg.iters {
                let c = &self.sl[i].c;
                let it = call(|| c.iter().map(look).take(1 + len).collect::<Vec<_>>());
                match it {
                    Res::Ok(v) if v == self.sl[i].m => {}
                    _ => self.bad(kind::ITER | kind::VIEW, "iterating shows other items than indexing"),
                }
            }
            total += len as isize;
            if E::UID {
                seen.extend(self.sl[i].m.iter().map(|o| o.uid));
            }
            for o in &self.sl[i].m {
                self.run.digest = mix(mix(self.run.digest, o.uid), o.val as u64);
            }
        }
        if E::UID {
            seen.sort_unstable();
            if seen.windows(2).any(|w| w[0] == w[1]) {
                self.bad(kind::LEDGER, "an element is in two places");
                self.dead = true;
            }
        }
        if E::COUNTED && E::live() != total + self.leaked {
            let l = E::live() - total - self.leaked;
            self.bad(kind::LEDGER, &if l > 0 { format!("{} elements were leaked", l) } else { format!("{} elements in containers were already dropped", -l) });
            self.leaked += l;
        }
        self.run.ledger_errs(&name);
    }

    fn after_fault(&mut self, aft: Aft, op: &Op) {
        self.run.count(&format!("faults_in_{:?}", self.fx.fired.unwrap()), 1);
        self.run.distinct(mix(hash_op(op), self.fx.fault ^ (self.k.cap as u64) << 32 ^ (self.k.ring as u64) << 40));
        let leak_ok = self.fx.fired == Some(Tick::Drop) || self.k.inl && op.o == O::CloneFrom;
        self.fam = kind::FAULT;
        let k = kind::FAULT;
        match aft {
            Aft::Unchanged => {}
            Aft::UnchangedLeaky => {
                self.settle_leak();
                return;
            }
            Aft::Prefix(s, extra) => {
                let now = self.peek(s);
                let m = self.sl[s].m.clone();
                if now.len() < m.len() || now[..m.len()] != m[..] || now.len() - m.len() > extra.len() || now[m.len()..] != extra[..now.len() - m.len()] {
                    self.bad(k, &format!("an interrupted extend left {}", show(&now)));
                } else {
                    self.sl[s].m = now;
                }
            }
            Aft::Subseq(s) => {
                let now = self.peek(s);
                let mut it = self.sl[s].m.iter();
                if now.iter().all(|o| it.any(|x| x == o)) {
                    self.sl[s].m = now;
                } else {
                    self.bad(k, &format!("holds {} afterwards", show(&now)));
                }
            }
            Aft::Window(s) => {
                let now = self.peek(s);
                let m = &self.sl[s].m;
                if now.is_empty() || m.windows(now.len()).any(|w| w == &now[..]) {
                    self.sl[s].m = now;
                } else {
                    self.bad(k, &format!("an interrupted drain left {}", show(&now)));
                }
            }
            Aft::Perm(s) => {
                let now = self.peek(s);
                if perm(&now, &self.sl[s].m) {
                    self.sl[s].m = now;
                } else {
                    self.bad(k, &format!("an interrupted sort left {}", show(&now)));
                }
            }
            Aft::Any(s, extra) => {
                let now = self.peek(s);
                self.leaky(s, now, &extra, k);
                return;
            }
            Aft::Fresh(s, m) => {
                let now = self.peek(s);
                if now == m || now == self.sl[s].m {
                    self.sl[s].m = now;
                } else {
                    // Partly overwritten: it must still be sound, which verify sees.
                    self.sl[s].m = now;
                }
            }
        }
        if leak_ok {
            self.settle_leak();
        }
    }

    /// Use the slot in ways that show a damaged state: fill it, drain it.
    pub fn epilogue(&mut self, s: usize) {
        for round in 0..2 {
            for i in 0..3 {
                let o = if (i + round) % 2 == 0 || self.k.inl { O::PushB } else { O::PushF };
                let mut op = Op::new(o).v(900 + i as u32);
                op.s = s;
                op.t = s;
                self.step(&op);
            }
            for i in 0..2 {
                let mut op = Op::new(if (i + round) % 2 == 0 && !self.k.inl { O::PopF } else { O::PopB });
                op.s = s;
                op.t = s;
                self.step(&op);
            }
        }
    }

    /// End the case: drop everything, and nothing may be left.
    pub fn stop(&mut self) {
        if self.dead {
            for s in self.sl.drain(..) {
                std::mem::forget(s);
            }
            self.run.tainted = true;
            return;
        }
        self.fam = kind::MODEL;
        for s in self.sl.drain(..) {
            if !call(|| drop(s.c)).is_ok() {
                self.run.violation(kind::MODEL | kind::FAULT, "dropping a container panicked");
            }
        }
        self.run.ledger_errs("at the end");
        if E::COUNTED && E::live() != self.leaked {
            let m = format!("{} elements too many are left after everything was dropped", E::live() - self.leaked);
            self.run.violation(kind::LEDGER, &m);
        }
    }
}

struct Raw(String);
impl std::fmt::Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

#[allow(clippy::too_many_arguments)]
fn read_slice<E: Elem>(w: &dyn Sl<'_, E>, win: &[Obs], vals: &[u32], was: bool, probe: &Option<E>, other: &E, other_val: u32, rd: &mut String) {
    let n = win.len();
    let mut bad = |c: bool, m: &str| {
        if c {
            *rd = m.to_string();
        }
    };
    bad(w.is_empty() != (n == 0), "is_empty");
    let g: Vec<Option<Obs>> = (0..n + 2).map(|i| w.get(i).map(look)).collect();
    bad(g[..n].iter().zip(win).any(|(a, b)| *a != Some(*b)) || g[n].is_some() || g[n + 1].is_some() || w.get(usize::MAX).is_some(), "get shows other items");
    bad((0..n).any(|i| look(w.index(i)) != win[i]), "index shows other items");
    bad((0..n).any(|i| look(w.get_unchecked(i)) != win[i]), "get_unchecked shows other items");
    bad(w.first().map(look) != win.first().copied(), "first");
    bad(w.last().map(look) != win.last().copied(), "last");
    bad(w.iter().map(look).collect::<Vec<_>>() != win, "iteration shows other items");
    bad(w.iter_ref().map(look).collect::<Vec<_>>() != win, "iteration by reference shows other items");
    bad(w.iter().rev().map(look).collect::<Vec<_>>() != win.iter().rev().copied().collect::<Vec<_>>(), "backward iteration shows other items");
    let d = w.debug();
    let raw: Vec<Raw> = vals.iter().map(|v| Raw(E::dbg(*v))).collect();
    bad(d[d.find('[').unwrap_or(0)..] != format!("{:?}", raw), "Debug shows other items");
    let d = w.pretty();
    bad(d[d.find('[').unwrap_or(0)..] != format!("{:#?}", raw), "Debug at length shows other items");
    bad(w.is_sorted() != was || w.is_sorted_by() != was || w.is_sorted_by_key() != was, "is_sorted");
    let copy: Vec<E> = vals.iter().map(|v| E::make(*v)).collect();
    bad(!w.eq_slice(&copy) || !w.eq_vec(&copy), "isn't equal to its items");
    bad(!w.starts_with(&copy) || !w.ends_with(&copy), "doesn't start or end with its items");
    if n > 0 {
        bad(!w.starts_with(&copy[..n - 1]) || !w.ends_with(&copy[1..]), "doesn't start or end with part of its items");
        bad(w.eq_slice(&copy[1..]), "is equal to less than its items");
    }
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    for c in &copy {
        std::hash::Hash::hash(c, &mut h);
    }
    let owned = w.to_owned();
    bad(w.hash() != owned.hash(), "hashes unlike its owned copy");
    drop(owned);
    for (e, v) in [(probe.as_ref(), probe.as_ref().map(|p| p.val()).unwrap_or(0)), (Some(other), other_val)] {
        let e = match e {
            Some(e) => e,
            None => continue,
        };
        bad(w.contains(e) != vals.contains(&v), "contains");
        if was {
            for r in [w.binary_search(e), w.binary_search_by_key(v), w.binary_search_by(v)] {
                let ok = match r {
                    Ok(i) => i < n && vals[i] == v,
                    Err(i) => i <= n && vals[..i].iter().all(|x| *x < v) && vals[i..].iter().all(|x| *x > v),
                };
                bad(!ok, "binary search");
            }
        }
    }
}

/// The indices of items in the order `drive` hands them over.
pub fn drive_order(n: usize, pat: &[usize], fin: usize) -> Vec<usize> {
    let m: Vec<Obs> = (0..n).map(|i| Obs { uid: i as u64 + 1, val: 0 }).collect();
    let (ev, _) = drive_model(&m, pat, fin);
    let mut v = Vec::new();
    for e in ev {
        match e {
            Ev::Item(Some(o)) => v.push(o.uid as usize - 1),
            Ev::Items(x) => v.extend(x.iter().map(|o| o.uid as usize - 1)),
            _ => {}
        }
    }
    v
}

fn perm(a: &[Obs], b: &[Obs]) -> bool {
    let key = |m: &[Obs]| {
        let mut v: Vec<(u64, u32)> = m.iter().map(|o| (o.uid, o.val)).collect();
        v.sort_unstable();
        v
    };
    key(a) == key(b)
}

fn two<E: Elem>(v: &mut [Slot<E>], s: usize, t: usize) -> (&mut Slot<E>, &mut Slot<E>) {
    if s < t {
        let (a, b) = v.split_at_mut(t);
        (&mut a[s], &mut b[0])
    } else if s > t {
        let (a, b) = v.split_at_mut(s);
        (&mut b[0], &mut a[t])
    } else {
        die("an operation on one container twice")
    }
}

pub fn hash_op(op: &Op) -> u64 {
    let mut h = op.o as u64;
    for x in [op.a, op.b, op.c] {
        h = mix(h, x as u64);
    }
    for x in &op.p {
        h = mix(h, *x as u64);
    }
    h
}

/// Capacities of chunks to convert to.
pub const CHUNKS: [usize; 5] = [0, 1, 3, 16, 65];

/// What an `InlineArray` can do.
pub fn inl_has(o: O) -> bool {
    use O::*;
    matches!(
        o,
        New | Drop | Move | PushB | PopB | Insert | Remove | Clear | SplitOff | Extend | ExtendVec | ExtendRef | FromIter | Get | GetMut | Unchecked | Index | IndexMut | Ends | Contains | Search | Fixes | Swap | Sort | Iter | View | ViewMut | IndexRange | IndexRangeMut | Clone | CloneFrom | Rel | Fmt | Layout | ToChunk
    )
}
