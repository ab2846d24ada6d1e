//! The interpreter for `SparseChunk`: the model is a `BTreeMap`.

use crate::core::*;
use crate::seq::{exercise, Fx, FORGET};
use crate::seqc::{h_map, hint, Fwd, HINTS, HONEST};
use bitmaps::{Bits, BitsImpl};
use sized_chunks::SparseChunk;
use std::any::Any;
use std::collections::{BTreeMap, HashMap};

/// An iterator with bounds of its length that may be wrong.
struct Bounded<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Bounded<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = self.0.next();
        if r.is_some() {
            self.1 = (self.1 .0.saturating_sub(1), self.1 .1.map(|h| h.saturating_sub(1)));
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

pub type Sp<E> = Box<dyn SpC<E>>;
type Model = BTreeMap<usize, Obs>;

/// An iterator over entries, as seen by the harness.
pub type EntryIter<'a, T> = Box<dyn Fwd<T> + 'a>;

pub trait SpC<E: Elem>: 'static {
    fn any(&self) -> &dyn Any;
    fn base(&self) -> usize;
    fn size(&self) -> usize;
    fn intact(&self) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_full(&self) -> bool;
    fn insert(&mut self, i: usize, e: E) -> Option<E>;
    fn remove(&mut self, i: usize) -> Option<E>;
    fn pop(&mut self) -> Option<E>;
    fn get(&self, i: usize) -> Option<&E>;
    fn get_mut(&mut self, i: usize) -> Option<&mut E>;
    fn get_unchecked(&self, i: usize) -> &E;
    fn get_unchecked_mut(&mut self, i: usize) -> &mut E;
    fn index(&self, i: usize) -> &E;
    fn index_mut(&mut self, i: usize) -> &mut E;
    fn first_index(&self) -> Option<usize>;
    fn indices(&self) -> EntryIter<'_, usize>;
    fn iter(&self) -> EntryIter<'_, &E>;
    fn iter_mut(&mut self) -> EntryIter<'_, &mut E>;
    fn entries(&self) -> EntryIter<'_, (usize, &E)>;
    fn option_iter(&self) -> EntryIter<'_, Option<&E>>;
    fn option_iter_mut(&mut self) -> EntryIter<'_, Option<&mut E>>;
    fn drain(self: Box<Self>, how: usize) -> EntryIter<'static, E>;
    fn option_drain(self: Box<Self>) -> EntryIter<'static, Option<E>>;
    fn moved(self: Box<Self>) -> Sp<E>;
    fn clone_c(&self) -> Sp<E>;
    fn clone_from_c(&mut self, o: &dyn SpC<E>);
    fn eq(&self, o: &dyn SpC<E>) -> bool;
    fn ne(&self, o: &dyn SpC<E>) -> bool;
    fn eq_btree(&self, m: &BTreeMap<usize, E>) -> bool;
    fn eq_hash(&self, m: &HashMap<usize, E>) -> bool;
    fn debug(&self, pretty: bool) -> String;
}

fn peer<E: Elem, const N: usize>(c: &dyn SpC<E>) -> &SparseChunk<E, N>
where
    BitsImpl<N>: Bits,
{
    &c.any().downcast_ref::<Guarded<SparseChunk<E, N>>>().unwrap_or_else(|| die("peer of another type")).c
}

impl<E: Elem, const N: usize> SpC<E> for Guarded<SparseChunk<E, N>>
where
    BitsImpl<N>: Bits,
    <BitsImpl<N> as Bits>::Store: 'static,
{
    fn any(&self) -> &dyn Any {
        self
    }
    fn base(&self) -> usize {
        &self.c as *const _ as usize
    }
    fn size(&self) -> usize {
        std::mem::size_of::<SparseChunk<E, N>>()
    }
    fn intact(&self) -> bool {
        Guarded::intact(self)
    }
    fn len(&self) -> usize {
        self.c.len()
    }
    fn is_empty(&self) -> bool {
        self.c.is_empty()
    }
    fn is_full(&self) -> bool {
        self.c.is_full()
    }
    fn insert(&mut self, i: usize, e: E) -> Option<E> {
        self.c.insert(i, e)
    }
    fn remove(&mut self, i: usize) -> Option<E> {
        self.c.remove(i)
    }
    fn pop(&mut self) -> Option<E> {
        self.c.pop()
    }
    fn get(&self, i: usize) -> Option<&E> {
        self.c.get(i)
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut E> {
        self.c.get_mut(i)
    }
    fn get_unchecked(&self, i: usize) -> &E {
        unsafe { self.c.get_unchecked(i) }
    }
    fn get_unchecked_mut(&mut self, i: usize) -> &mut E {
        unsafe { self.c.get_unchecked_mut(i) }
    }
    fn index(&self, i: usize) -> &E {
        &self.c[i]
    }
    fn index_mut(&mut self, i: usize) -> &mut E {
        &mut self.c[i]
    }
    fn first_index(&self) -> Option<usize> {
        self.c.first_index()
    }
    fn indices(&self) -> EntryIter<'_, usize> {
        Box::new(self.c.indices())
    }
    fn iter(&self) -> EntryIter<'_, &E> {
        Box::new(self.c.iter())
    }
    fn iter_mut(&mut self) -> EntryIter<'_, &mut E> {
        Box::new(self.c.iter_mut())
    }
    fn entries(&self) -> EntryIter<'_, (usize, &E)> {
        Box::new(self.c.entries())
    }
    fn option_iter(&self) -> EntryIter<'_, Option<&E>> {
        Box::new(self.c.option_iter())
    }
    fn option_iter_mut(&mut self) -> EntryIter<'_, Option<&mut E>> {
        Box::new(self.c.option_iter_mut())
    }
    fn drain(self: Box<Self>, how: usize) -> EntryIter<'static, E> {
        let c = guarded_into(self);
        if how == 0 {
            Box::new(c.drain())
        } else {
            Box::new(c.into_iter())
        }
    }
    fn option_drain(self: Box<Self>) -> EntryIter<'static, Option<E>> {
        Box::new(guarded_into(self).option_drain())
    }
    fn moved(self: Box<Self>) -> Sp<E> {
        let v = vec![guarded_into(self)];
        Guarded::new(v.into_iter().next().unwrap())
    }
    fn clone_c(&self) -> Sp<E> {
        Guarded::new(self.c.clone())
    }
    fn clone_from_c(&mut self, o: &dyn SpC<E>) {
        self.c.clone_from(peer(o))
    }
    fn eq(&self, o: &dyn SpC<E>) -> bool {
        self.c == *peer::<E, N>(o)
    }
    fn ne(&self, o: &dyn SpC<E>) -> bool {
        self.c != *peer::<E, N>(o)
    }
    #[cfg(feature = "std")]
    fn eq_btree(&self, m: &BTreeMap<usize, E>) -> bool {
        self.c == *m
    }
    #[cfg(feature = "std")]
    fn eq_hash(&self, m: &HashMap<usize, E>) -> bool {
        self.c == *m
    }
    // Without `std` there is nothing to compare with.
    #[cfg(not(feature = "std"))]
    fn eq_btree(&self, m: &BTreeMap<usize, E>) -> bool {
        self.c.entries().eq(m.iter().map(|(k, v)| (*k, v)))
    }
    #[cfg(not(feature = "std"))]
    fn eq_hash(&self, m: &HashMap<usize, E>) -> bool {
        self.c.len() == m.len() && self.c.entries().all(|(k, v)| m.get(&k) == Some(v))
    }
    fn debug(&self, pretty: bool) -> String {
        if pretty {
            format!("{:#?}", self.c)
        } else {
            format!("{:?}", self.c)
        }
    }
}

/// How to make the containers of one configuration.
pub struct SpCtor<E: Elem> {
    pub cap: usize,
    pub new: fn(bool) -> Sp<E>,
    pub unit: fn(usize, E) -> Sp<E>,
    pub pair: fn(usize, E, usize, E) -> Sp<E>,
    pub from_iter: fn(&mut dyn Iterator<Item = Option<E>>) -> Sp<E>,
    pub pool_default: Option<fn(u8) -> Sp<E>>,
    pub pool_clone: Option<fn(&dyn SpC<E>, u8) -> Sp<E>>,
}
impl<E: Elem> Clone for SpCtor<E> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<E: Elem> Copy for SpCtor<E> {}

pub fn sp_ctor<E: Elem, const N: usize>() -> SpCtor<E>
where
    BitsImpl<N>: Bits,
    <BitsImpl<N> as Bits>::Store: 'static,
{
    #[allow(unused_mut)]
    let mut k: SpCtor<E> = SpCtor {
        cap: SparseChunk::<E, N>::CAPACITY,
        new: |d| Guarded::new(if d { SparseChunk::<E, N>::default() } else { SparseChunk::<E, N>::new() }),
        unit: |i, e| Guarded::new(SparseChunk::<E, N>::unit(i, e)),
        pair: |i, e, j, f| Guarded::new(SparseChunk::<E, N>::pair(i, e, j, f)),
        from_iter: |it| Guarded::new(it.collect::<SparseChunk<E, N>>()),
        pool_default: None,
        pool_clone: None,
    };
    #[cfg(feature = "extra")]
    {
        use crate::seqc::pool;
        k.pool_default = Some(|f| pool::default_in::<SparseChunk<E, N>>(f));
        k.pool_clone = Some(|c, f| pool::clone_in::<SparseChunk<E, N>>(peer(c), f));
    }
    k
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum O {
    New,
    Unit,
    Pair,
    Drop,
    Move,
    Insert,
    Remove,
    Pop,
    FromIter,
    Get,
    GetMut,
    Unchecked,
    Index,
    IndexMut,
    First,
    Iter,
    View,
    Clone,
    CloneFrom,
    Rel,
    RelMap,
    Fmt,
    PoolDefault,
    PoolClone,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub o: O,
    pub s: usize,
    pub t: usize,
    pub a: usize,
    pub b: usize,
    pub c: usize,
    pub v: u32,
    pub p: Vec<usize>,
}

impl Op {
    pub fn new(o: O) -> Op {
        Op { o, s: 0, t: 1, a: 0, b: 0, c: 0, v: 100, p: vec![] }
    }
    pub fn a(mut self, a: usize) -> Op {
        self.a = a;
        self
    }
    pub fn b(mut self, b: usize) -> Op {
        self.b = b;
        self
    }
    pub fn c(mut self, c: usize) -> Op {
        self.c = c;
        self
    }
    pub fn v(mut self, v: u32) -> Op {
        self.v = v;
        self
    }
    pub fn p(mut self, p: Vec<usize>) -> Op {
        self.p = p;
        self
    }
    fn show(&self) -> String {
        format!("{:?}(s={} t={} a={} b={} c={} v={}{})", self.o, self.s, self.t, self.a, self.b, self.c, self.v, if self.p.is_empty() { String::new() } else { format!(" p={:?}", self.p) })
    }
}

/// What must hold after a fault.
enum Aft {
    Unchanged,
    /// The container was consumed.
    Consumed(usize),
    /// The slot holds its old value or this one.
    Either(usize, Vec<(usize, u32)>),
    /// Leaking is allowed as well.
    Leaky,
}

struct Slot<E: Elem> {
    c: Sp<E>,
    m: Model,
}

pub struct Eng<'r, E: Elem> {
    run: &'r mut Run,
    k: SpCtor<E>,
    groups: u32,
    misuse: usize,
    sl: Vec<Slot<E>>,
    fx: Fx,
    leaked: isize,
    dead: bool,
    fam: Kinds,
    adopt: bool,
    refused: bool,
}

pub mod group {
    pub use crate::seq::group::*;
}

/// Drive an iterator forwards: 0 next, 2+k nth(k), 20 nth(huge); then finish:
/// 1 count, 2 last, 3 fold, 5 collect, 6 step_by, 7 until the end and beyond,
/// 9 forget, 10 any, 11 find_map, 12 position, 14 for_each, otherwise abandon.
#[derive(PartialEq, Eq, Debug, Clone)]
enum Ev<X> {
    Item(Option<X>),
    Hint(usize, Option<usize>),
    Count(usize),
    Items(Vec<X>),
}

fn drive<T, X>(mut it: EntryIter<'_, T>, pat: &[usize], fin: usize, see: &mut dyn FnMut(T) -> X) -> Vec<Ev<X>> {
    let mut ev = Vec::new();
    let hint = |it: &EntryIter<'_, T>| {
        let (l, h) = it.size_hint();
        Ev::Hint(l, h)
    };
    ev.push(hint(&it));
    for &p in pat {
        let x = match p {
            0 | 1 => it.next(),
            20 => it.nth(usize::MAX),
            p => it.nth(p - 2),
        };
        ev.push(Ev::Item(x.map(&mut *see)));
        ev.push(hint(&it));
    }
    match fin {
        1 => ev.push(Ev::Count(it.count_b())),
        2 => ev.push(Ev::Item(it.last_b().map(&mut *see))),
        3 | 10..=14 => {
            let mut v = Vec::new();
            let mut f = |x: T| {
                tick(Tick::Call);
                v.push(see(x))
            };
            match fin {
                3 => it.fold_b(&mut f),
                10 => it.any_b(&mut f),
                11 => it.find_map_b(&mut f),
                12 => it.position_b(&mut f),
                _ => it.each_b(&mut f),
            }
            ev.push(Ev::Items(v));
        }
        5 => ev.push(Ev::Items(it.collect_b().into_iter().map(&mut *see).collect())),
        6 => ev.push(Ev::Items(it.step_b(2).into_iter().map(&mut *see).collect())),
        FORGET => it.forget_b(),
        7 => {
            let mut v = Vec::new();
            let mut left = 10_000;
            while let Some(x) = it.next() {
                v.push(see(x));
                left -= 1;
                if left == 0 {
                    break;
                }
            }
            ev.push(Ev::Items(v));
            ev.push(hint(&it));
            for _ in 0..3 {
                ev.push(Ev::Item(it.next().map(&mut *see)));
            }
            ev.push(hint(&it));
        }
        _ => {}
    }
    ev
}

/// Compare with what driving a list gives; the number yielded from the list.
fn judge_drive<X: PartialEq + Clone + std::fmt::Debug>(all: &[X], pat: &[usize], fin: usize, got: &[Ev<X>]) -> Result<usize, String> {
    let mut g = got.iter();
    let mut at = 0;
    let n = all.len();
    let mut expect = |want: Option<Ev<X>>, left: usize| -> Result<(), String> {
        match (g.next(), want) {
            (Some(Ev::Hint(lo, hi)), None) => {
                if *lo > left || hi.map_or(false, |h| h < left) {
                    return Err(format!("size_hint {:?} with {} items left", (lo, hi), left));
                }
                Ok(())
            }
            (Some(e), Some(w)) if *e == w => Ok(()),
            (e, w) => Err(format!("{:?} instead of {:?}", e, w)),
        }
    };
    expect(None, n)?;
    for &p in pat {
        let k = match p {
            0 | 1 => 0,
            20 => usize::MAX,
            p => p - 2,
        };
        let x = if k >= n - at {
            at = n;
            None
        } else {
            at += k + 1;
            Some(all[at - 1].clone())
        };
        expect(Some(Ev::Item(x)), 0)?;
        expect(None, n - at)?;
    }
    let rest = all[at..].to_vec();
    match fin {
        1 => expect(Some(Ev::Count(rest.len())), 0)?,
        2 => expect(Some(Ev::Item(rest.last().cloned())), 0)?,
        3 | 5 | 10..=14 => expect(Some(Ev::Items(rest)), 0)?,
        6 => expect(Some(Ev::Items(rest.into_iter().step_by(2).collect())), 0)?,
        7 => {
            expect(Some(Ev::Items(rest)), 0)?;
            expect(None, 0)?;
            for _ in 0..3 {
                expect(Some(Ev::Item(None)), 0)?;
            }
            expect(None, 0)?;
        }
        _ => return Ok(at),
    }
    Ok(n)
}

const KINDS: usize = 9;
const FIN: [usize; 12] = [0, 1, 2, 3, 5, 6, 7, FORGET, 10, 11, 12, 14];

impl<'r, E: Elem> Eng<'r, E> {
    pub fn new(run: &'r mut Run, k: SpCtor<E>) -> Self {
        let groups = group::parse(run.get("groups").unwrap_or("all"));
        let misuse = run.num("misuse", 10) as usize;
        Eng { run, k, groups, misuse, sl: vec![], fx: Fx { fault: 0, fired: None }, leaked: 0, dead: false, fam: 0, adopt: false, refused: false }
    }

    fn name(&self) -> String {
        format!("SparseChunk<{},{}>", E::NAME, self.k.cap)
    }

    fn start(&mut self) {
        ledger().reset();
        self.sl.clear();
        for _ in 0..2 {
            let c = (self.k.new)(false);
            self.sl.push(Slot { c, m: Model::new() });
        }
        self.leaked = 0;
        self.dead = false;
        self.adopt = false;
        self.fx = Fx { fault: 0, fired: None };
        self.run.log = self.name();
    }

    fn bad(&mut self, k: Kinds, msg: &str) {
        let n = self.name();
        self.adopt = true;
        self.run.violation(k, &format!("{}: {}", n, msg));
    }

    fn judge(&mut self, must: bool, did: bool, k: Kinds) -> bool {
        if self.fx.fired.is_some() {
            return false;
        }
        if must && !did {
            self.bad(k, "panicked though the operation can be honoured");
        } else if !must && did {
            self.bad(kind::REFUSE, "accepted though the operation can't be honoured");
        } else if !must {
            self.refused = true;
            self.fam = kind::REFUSE;
            self.run.refused += 1;
        }
        must && did
    }

    fn mk(&self, v: u32) -> (E, Obs) {
        let e = E::make(E::rep(v));
        let o = look(&e);
        (e, o)
    }

    /// Fill a slot with the items at these indices.
    fn fill(&mut self, s: usize, at: &[usize], v: u32) {
        if self.run.log.len() < LOG {
            self.run.log.push_str(&format!("\nfill(s={} v={} at={:?})", s, v, &at[..at.len().min(80)]));
        }
        if self.run.trace {
            eprintln!("FILL s={} v={} at={:?}", s, v, at);
        }
        let mut items = Vec::new();
        for (j, &i) in at.iter().enumerate() {
            items.push((i, E::make(E::rep(v.wrapping_add(j as u32)))));
        }
        for (i, e) in &items {
            self.sl[s].m.insert(*i, look(e));
        }
        let c = &mut self.sl[s].c;
        let r = call(|| items.into_iter().all(|(i, e)| c.insert(i, e).is_none()));
        self.fam = kind::MODEL;
        if r.ok() != Some(true) {
            self.bad(kind::MODEL, "inserting at vacant indices failed");
        }
    }

    fn step(&mut self, op: &Op) {
        if self.dead {
            return;
        }
        if self.run.trace {
            eprintln!("OP {}", op.show());
        }
        if self.run.log.len() < LOG {
            self.run.log.push('\n');
            let s = op.show();
            self.run.log.push_str(&s);
        }
        self.run.ops += 1;
        self.adopt = false;
        self.refused = false;
        self.fx.fired = None;
        self.fam = kind::MODEL;
        let nonempty = !self.sl[op.s].m.is_empty() || !self.sl[op.t].m.is_empty();
        let clones = ledger().clones;
        let h = if cfg!(miri) { 0 } else { mix(h_map(self.sl[op.s].m.keys(), self.k.cap), mix(h_map(self.sl[op.t].m.keys(), 1), mix(mix(op.o as u64, op.a as u64), mix(mix(op.b as u64, op.c as u64), op.p.iter().fold(0, |a, p| mix(a, *p as u64)))))) };
        let mut aft = Aft::Unchanged;
        self.run_op(op, &mut aft);
        if self.dead {
            return;
        }
        if let Some(t) = self.fx.fired {
            self.run.count(&format!("faults_in_{:?}", t), 1);
            self.run.distinct(mix(h, self.fx.fault));
            self.after_fault(aft, t);
        } else {
            if nonempty || self.refused {
                self.run.distinct(mix(h, hash_str(E::NAME)));
            }
            if !matches!(op.o, O::Clone | O::CloneFrom | O::PoolClone) && E::CLONES && ledger().clones != clones {
                self.bad(kind::COST, "elements were cloned by an operation that doesn't copy");
            }
        }
        self.verify(op.s, op.t);
        self.run.digest = mix(self.run.digest, self.refused as u64 + 2);
    }

    fn put(&mut self, t: usize, c: Option<Sp<E>>, m: Model, k: Kinds, must: bool) {
        if self.judge(must, c.is_some(), k) || (c.is_some() && self.fx.fired.is_none()) {
            let old = std::mem::replace(&mut self.sl[t].c, c.unwrap());
            self.sl[t].m = m;
            if !call(|| drop(old)).is_ok() {
                self.bad(kind::MODEL, "dropping a container panicked");
            }
        }
    }

    fn same(&mut self, got: Option<Obs>, want: Option<Obs>, k: Kinds, what: &str) {
        if got != want {
            self.bad(k, &format!("{} gave {:?} instead of {:?}", what, got, want));
        }
    }

    /// A copy of slot `s` as it must look: new identities from `mark`.
    fn copied(&self, s: usize, mark: u64) -> Model {
        self.sl[s].m.iter().enumerate().map(|(j, (i, o))| (*i, Obs { uid: if E::UID { mark + j as u64 } else { 0 }, val: o.val })).collect()
    }

    fn one_each(&mut self, clones: u64, n: usize, k: Kinds) {
        let made = ledger().clones - clones;
        if self.fx.fired.is_none() && E::CLONES && made != n as u64 {
            self.bad(k, &format!("cloning {} elements made {} clones", n, made));
        }
    }

    /// Clones may be made in any order.
    fn any_order(&mut self, s: usize) {
        if !E::UID || self.dead || self.fx.fired.is_some() {
            return;
        }
        let now = self.peek(s);
        let m = &self.sl[s].m;
        let ids = |m: &Model| {
            let mut v: Vec<u64> = m.values().map(|o| o.uid).collect();
            v.sort_unstable();
            v
        };
        if now.len() == m.len() && now.iter().zip(m).all(|(a, b)| a.0 == b.0 && a.1.val == b.1.val) && ids(&now) == ids(m) {
            self.sl[s].m = now;
        }
    }

    fn run_op(&mut self, op: &Op, aft: &mut Aft) {
        let (s, t, cap) = (op.s, op.t, self.k.cap);
        let fam = kind::MODEL;
        match op.o {
            O::New => {
                let r = self.fx.go(|| (self.k.new)(op.a == 1));
                self.put(t, r.ok(), Model::new(), fam, true);
            }
            O::Unit => {
                let (e, o) = self.mk(op.v);
                let r = self.fx.go(|| (self.k.unit)(op.a, e));
                self.put(t, r.ok(), Some((op.a, o)).into_iter().collect(), fam, op.a < cap);
            }
            O::Pair => {
                let (e, o) = self.mk(op.v);
                let (f, p) = self.mk(op.v + 1);
                *aft = Aft::Leaky;
                let r = self.fx.go(|| (self.k.pair)(op.a, e, op.b, f));
                self.put(t, r.ok(), vec![(op.a, o), (op.b, p)].into_iter().collect(), fam, op.a < cap && op.b < cap);
            }
            O::Drop => {
                *aft = Aft::Consumed(s);
                let c = self.take(s);
                let r = self.fx.go(|| drop(c));
                self.judge(true, r.is_ok(), fam);
                self.sl[s].m.clear();
            }
            O::Move => {
                let c = self.take(s);
                let r = self.fx.go(|| c.moved());
                if let Some(c) = r.ok() {
                    self.sl[s].c = c;
                }
            }
            O::Insert => {
                let (e, o) = self.mk(op.v);
                let r = self.fx.go(|| self.sl[s].c.insert(op.a, e));
                if self.judge(op.a < cap, r.is_ok(), fam) {
                    let old = self.sl[s].m.insert(op.a, o);
                    let r = r.ok().unwrap();
                    self.same(r.as_ref().map(look), old, fam, "insert");
                }
            }
            O::Remove => {
                let r = self.fx.go(|| self.sl[s].c.remove(op.a));
                if self.judge(op.a < cap, r.is_ok(), fam) {
                    let old = self.sl[s].m.remove(&op.a);
                    let r = r.ok().unwrap();
                    self.same(r.as_ref().map(look), old, fam, "remove");
                }
            }
            O::Pop => {
                let r = self.fx.go(|| self.sl[s].c.pop());
                if self.judge(true, r.is_ok(), fam) {
                    let first = self.sl[s].m.keys().next().copied();
                    let old = first.and_then(|i| self.sl[s].m.remove(&i));
                    let r = r.ok().unwrap();
                    self.same(r.as_ref().map(look), old, fam, "pop");
                }
            }
            O::FromIter => {
                // p: whether there is an item, from index 0 on.
                let mut m = Model::new();
                let mut items = Vec::new();
                for (i, &x) in op.p.iter().enumerate() {
                    if x != 0 {
                        let (e, o) = self.mk(op.v.wrapping_add(i as u32));
                        m.insert(i, o);
                        items.push(Some(e));
                    } else {
                        items.push(None);
                    }
                }
                let must = m.keys().all(|i| *i < cap);
                let n = items.len();
                let h = hint(op.b, n, cap, cap);
                let lie = h.0 > n || h.1.map_or(false, |h| h < n);
                let mut it = Bounded(items.into_iter().inspect(|_| tick(Tick::Next)), h);
                let r = self.fx.go(|| (self.k.from_iter)(&mut it));
                drop(it);
                if lie {
                    self.run.count("lying_bounds", 1);
                    // What was delivered up to some place.
                    match r.ok() {
                        Some(c) => {
                            self.put(t, Some(c), Model::new(), kind::BULK, true);
                            let now = self.peek(t);
                            let upto = (0..=n).find(|k| now.keys().eq(m.range(..*k).map(|(i, _)| i)));
                            m.retain(|i, _| upto.map_or(false, |k| *i < k));
                            if now != m {
                                self.bad(kind::BULK, &format!("collecting, told {:?}, made {:?}", h, now));
                            }
                            self.sl[t].m = now;
                        }
                        None => {
                            self.refused = true;
                            self.run.refused += 1;
                        }
                    }
                    return;
                }
                self.put(t, r.ok(), m, fam | kind::COPY | kind::BULK, must);
                if !self.refused {
                    self.fam = fam | kind::COPY | kind::BULK;
                }
            }
            O::Get => {
                let r = self.fx.go(|| self.sl[s].c.get(op.a).map(look));
                if self.judge(true, r.is_ok(), fam | kind::VIEW) {
                    let w = self.sl[s].m.get(&op.a).copied();
                    self.same(r.ok().unwrap(), w, fam | kind::VIEW, "get");
                }
            }
            O::GetMut => {
                let nv = E::rep(op.v);
                let r = self.fx.go(|| {
                    self.sl[s].c.get_mut(op.a).map(|e| {
                        let o = look(e);
                        e.poke(nv);
                        o
                    })
                });
                if self.judge(true, r.is_ok(), fam | kind::VIEW) {
                    let w = self.sl[s].m.get(&op.a).copied();
                    self.same(r.ok().unwrap(), w, fam | kind::VIEW, "get_mut");
                    if let Some(o) = self.sl[s].m.get_mut(&op.a) {
                        o.val = nv;
                    }
                }
                self.fam |= kind::VIEW;
            }
            O::Unchecked => {
                if let Some(w) = self.sl[s].m.get(&op.a).copied() {
                    let nv = E::rep(op.v);
                    let r = self.fx.go(|| {
                        let o = look(self.sl[s].c.get_unchecked(op.a));
                        self.sl[s].c.get_unchecked_mut(op.a).poke(nv);
                        o
                    });
                    if self.judge(true, r.is_ok(), fam | kind::VIEW) {
                        self.same(r.ok(), Some(w), fam | kind::VIEW, "get_unchecked");
                        self.sl[s].m.get_mut(&op.a).unwrap().val = nv;
                    }
                    self.fam |= kind::VIEW;
                }
            }
            O::Index => {
                let w = self.sl[s].m.get(&op.a).copied();
                let r = self.fx.go(|| look(self.sl[s].c.index(op.a)));
                if self.judge(w.is_some(), r.is_ok(), fam | kind::VIEW) {
                    self.same(r.ok(), w, fam | kind::VIEW, "index");
                }
            }
            O::IndexMut => {
                let nv = E::rep(op.v);
                let w = self.sl[s].m.get(&op.a).copied();
                let r = self.fx.go(|| {
                    let e = self.sl[s].c.index_mut(op.a);
                    let o = look(e);
                    e.poke(nv);
                    o
                });
                if self.judge(w.is_some(), r.is_ok(), fam | kind::VIEW) {
                    self.same(r.ok(), w, fam | kind::VIEW, "index_mut");
                    self.sl[s].m.get_mut(&op.a).unwrap().val = nv;
                    self.fam |= kind::VIEW;
                }
            }
            O::First => {
                let r = self.fx.go(|| self.sl[s].c.first_index());
                if self.judge(true, r.is_ok(), fam) && r.ok().unwrap() != self.sl[s].m.keys().next().copied() {
                    self.bad(fam, "first_index");
                }
            }
            O::Iter => self.iterate(op, aft),
            O::View => self.views(s),
            O::Clone => {
                let mark = ledger().watermark();
                let m = self.copied(s, mark);
                let clones = ledger().clones;
                let r = self.fx.go(|| self.sl[s].c.clone_c());
                self.one_each(clones, m.len(), kind::COPY);
                self.put(t, r.ok(), m, fam | kind::COPY, true);
                self.any_order(t);
                self.fam = fam | kind::COPY;
            }
            O::CloneFrom => {
                let mark = ledger().watermark();
                let m = self.copied(t, mark);
                let clones = ledger().clones;
                *aft = Aft::Either(s, m.iter().map(|(i, o)| (*i, o.val)).collect());
                let r = if s == t {
                    die("an operation on one container twice")
                } else {
                    let (x, y) = self.sl.split_at_mut(1);
                    let (x, y) = if s == 0 { (&mut x[0], &y[0]) } else { (&mut y[0], &x[0]) };
                    self.fx.go(|| x.c.clone_from_c(&*y.c))
                };
                self.one_each(clones, m.len(), kind::COPY);
                if self.judge(true, r.is_ok(), fam | kind::COPY) {
                    self.sl[s].m = m;
                    self.any_order(s);
                }
                self.fam = fam | kind::COPY;
            }
            O::Rel => {
                let vals = |m: &Model| m.iter().map(|(i, o)| (*i, o.val)).collect::<Vec<_>>();
                let want = vals(&self.sl[s].m) == vals(&self.sl[t].m);
                let (x, y) = (&self.sl[s].c, &self.sl[t].c);
                let r = self.fx.go(|| (x.eq(&**y), x.ne(&**y), y.eq(&**x), x.eq(&**x)));
                if self.judge(true, r.is_ok(), kind::REL) && r.ok() != Some((want, !want, want, true)) {
                    self.bad(kind::REL, "equality doesn't follow the contents");
                }
                self.run.count(if want { "equal_pairs" } else { "unequal_pairs" }, 1);
            }
            O::RelMap => {
                // c: how the map differs: 0 not, 1 a value, 2 an index, 3 one more, 4 one less.
                let mut m: BTreeMap<usize, u32> = self.sl[s].m.iter().map(|(i, o)| (*i, o.val)).collect();
                let orig = m.clone();
                let at = op.a % cap.max(1);
                let key = m.keys().copied().nth(op.b % m.len().max(1));
                match op.c {
                    1 => {
                        if let Some(k) = key {
                            let v = m[&k];
                            m.insert(k, E::rep(v ^ 1));
                        }
                    }
                    2 => {
                        if let Some(k) = key {
                            if !m.contains_key(&at) {
                                let v = m.remove(&k).unwrap();
                                m.insert(at, v);
                            }
                        }
                    }
                    3 => {
                        m.insert(at, E::rep(op.v));
                    }
                    4 => {
                        if let Some(k) = key {
                            m.remove(&k);
                        }
                    }
                    5 => {
                        // Beyond the capacity.
                        m.insert(cap + at, E::rep(op.v));
                    }
                    6 => {
                        if let Some(k) = key {
                            let v = m.remove(&k).unwrap();
                            m.insert(cap + at, v);
                        }
                    }
                    _ => {}
                }
                let want = m == orig;
                let b: BTreeMap<usize, E> = m.iter().map(|(i, v)| (*i, E::make(*v))).collect();
                let h: HashMap<usize, E> = m.iter().map(|(i, v)| (*i, E::make(*v))).collect();
                let r = self.fx.go(|| (self.sl[s].c.eq_btree(&b), self.sl[s].c.eq_hash(&h)));
                if self.judge(true, r.is_ok(), kind::REL) && r.ok() != Some((want, want)) {
                    self.bad(kind::REL, "equality with a map doesn't follow the contents");
                }
                self.run.count(if want { "equal_pairs" } else { "unequal_pairs" }, 1);
            }
            O::Fmt => {
                let pretty = op.a == 1;
                let r = self.fx.go(|| self.sl[s].c.debug(pretty));
                let m: BTreeMap<usize, Raw> = self.sl[s].m.iter().map(|(i, o)| (*i, Raw(E::dbg(o.val)))).collect();
                let want = if pretty { format!("SparseChunk{:#?}", m) } else { format!("SparseChunk{:?}", m) };
                if self.judge(true, r.is_ok(), kind::VIEW) && r.ok().as_deref() != Some(&want) {
                    self.bad(kind::VIEW, "Debug shows other items");
                }
            }
            O::PoolDefault => {
                if let Some(f) = self.k.pool_default {
                    let r = self.fx.go(|| f(op.a as u8));
                    self.put(t, r.ok(), Model::new(), kind::POOL, true);
                    self.fam = kind::POOL;
                }
            }
            O::PoolClone => {
                if let Some(f) = self.k.pool_clone {
                    let mark = ledger().watermark();
                    let m = self.copied(s, mark);
                    *aft = Aft::Leaky;
                    let clones = ledger().clones;
                    let r = self.fx.go(|| f(&*self.sl[s].c, op.a as u8));
                    self.one_each(clones, m.len(), kind::POOL);
                    self.put(t, r.ok(), m, kind::POOL, true);
                    self.any_order(t);
                    self.fam = kind::POOL;
                }
            }
        }
    }

    fn take(&mut self, s: usize) -> Sp<E> {
        std::mem::replace(&mut self.sl[s].c, (self.k.new)(false))
    }

    fn iterate(&mut self, op: &Op, aft: &mut Aft) {
        let (s, cap) = (op.s, self.k.cap);
        let k = kind::ITER;
        self.fam = k;
        let m: Vec<(usize, Obs)> = self.sl[s].m.iter().map(|(i, o)| (*i, *o)).collect();
        let opts: Vec<Option<Obs>> = (0..cap).map(|i| self.sl[s].m.get(&i).copied()).collect();
        let vals: Vec<Obs> = m.iter().map(|x| x.1).collect();
        let (pat, fin) = (&op.p[..], op.b);
        let mut res: Result<usize, String> = Ok(0);
        let did;
        let nv = E::rep(op.v);
        let mut pokes: Vec<u32> = vec![];
        match op.a {
            0 => {
                let r = self.fx.go(|| drive(self.sl[s].c.iter(), pat, fin, &mut |e| look(e)));
                did = r.is_ok();
                r.ok().map(|e| res = judge_drive(&vals, pat, fin, &e));
            }
            1 => {
                let c = &mut self.sl[s].c;
                let mut refs = Vec::new();
                let r = self.fx.go(|| {
                    drive(c.iter_mut(), pat, fin, &mut |e: &mut E| {
                        let o = look(e);
                        refs.push(e as *mut E);
                        o
                    })
                });
                did = r.is_ok();
                if did {
                    // Held together: reborrowed at once from what was yielded.
                    let mut refs: Vec<&mut E> = refs.into_iter().map(|p| unsafe { &mut *p }).collect();
                    pokes = exercise(self.run, &mut refs, nv);
                }
                r.ok().map(|e| res = judge_drive(&vals, pat, fin, &e));
            }
            2 => {
                let r = self.fx.go(|| drive(self.sl[s].c.indices(), pat, fin, &mut |i| i));
                did = r.is_ok();
                let idx: Vec<usize> = m.iter().map(|x| x.0).collect();
                r.ok().map(|e| res = judge_drive(&idx, pat, fin, &e));
            }
            3 => {
                let r = self.fx.go(|| drive(self.sl[s].c.entries(), pat, fin, &mut |(i, e)| (i, look(e))));
                did = r.is_ok();
                r.ok().map(|e| res = judge_drive(&m, pat, fin, &e));
            }
            4 => {
                let r = self.fx.go(|| drive(self.sl[s].c.option_iter(), pat, fin, &mut |e| e.map(look)));
                did = r.is_ok();
                r.ok().map(|e| res = judge_drive(&opts, pat, fin, &e));
            }
            5 => {
                let c = &mut self.sl[s].c;
                let mut refs = Vec::new();
                let r = self.fx.go(|| {
                    drive(c.option_iter_mut(), pat, fin, &mut |e: Option<&mut E>| {
                        e.map(|e| {
                            let o = look(e);
                            refs.push(e as *mut E);
                            o
                        })
                    })
                });
                did = r.is_ok();
                if did {
                    let mut refs: Vec<&mut E> = refs.into_iter().map(|p| unsafe { &mut *p }).collect();
                    pokes = exercise(self.run, &mut refs, nv);
                }
                r.ok().map(|e| res = judge_drive(&opts, pat, fin, &e));
            }
            6 | 7 => {
                *aft = Aft::Consumed(s);
                let c = self.take(s);
                self.sl[s].m.clear();
                let mut keep = Vec::new();
                let r = self.fx.go(|| {
                    drive(c.drain(op.a - 6), pat, fin, &mut |e| {
                        let o = look(&e);
                        keep.push(e);
                        o
                    })
                });
                did = r.is_ok();
                drop(keep);
                if did && fin == FORGET {
                    self.settle_leak();
                }
                r.ok().map(|e| res = judge_drive(&vals, pat, fin, &e));
            }
            _ => {
                *aft = Aft::Consumed(s);
                let c = self.take(s);
                self.sl[s].m.clear();
                let mut keep = Vec::new();
                let r = self.fx.go(|| {
                    drive(c.option_drain(), pat, fin, &mut |e| {
                        let o = e.as_ref().map(look);
                        keep.push(e);
                        o
                    })
                });
                did = r.is_ok();
                drop(keep);
                if did && fin == FORGET {
                    self.settle_leak();
                }
                r.ok().map(|e| res = judge_drive(&opts, pat, fin, &e));
            }
        }
        if !self.judge(true, did, k) {
            return;
        }
        match res {
            Err(e) => self.bad(k, &format!("an iterator gave {}", e)),
            Ok(_) if op.a == 1 || op.a == 5 => {
                // Which items were yielded, in order.
                let list: Vec<Option<usize>> = if op.a == 1 { m.iter().map(|x| Some(x.0)).collect() } else { (0..cap).map(|i| opts[i].map(|_| i)).collect() };
                let mut at = 0;
                let mut got = Vec::new();
                for &p in pat {
                    let n = match p {
                        0 | 1 => 0,
                        20 => usize::MAX,
                        p => p - 2,
                    };
                    if n >= list.len() - at {
                        at = list.len();
                    } else {
                        at += n + 1;
                        got.push(list[at - 1]);
                    }
                }
                match fin {
                    2 => got.extend(list[at..].last().copied()),
                    3 | 5 | 7 | 10..=14 => got.extend(&list[at..]),
                    6 => got.extend(list[at..].iter().step_by(2)),
                    _ => {}
                }
                let got: Vec<usize> = got.into_iter().flatten().collect();
                if got.len() != pokes.len() {
                    self.bad(k, "an iterator yielded another number of items than it seemed");
                } else {
                    for (i, v) in got.iter().zip(pokes) {
                        self.sl[s].m.get_mut(i).unwrap().val = v;
                    }
                    self.fam = k | kind::ALIAS;
                }
                self.run.count("references_held_together", got.len() as u64);
            }
            _ => {}
        }
    }

    fn views(&mut self, s: usize) {
        self.fam = kind::VIEW;
        let m = self.sl[s].m.clone();
        let cap = self.k.cap;
        let r = self.fx.go(|| {
            let c = &self.sl[s].c;
            let addr = |e: &E| e as *const E as usize;
            let size = std::mem::size_of::<E>();
            let (lo, hi) = (c.base(), c.base() + c.size());
            let a: Vec<usize> = c.iter().map(addr).collect();
            let b: Vec<usize> = m.keys().filter_map(|i| c.get(*i)).map(addr).collect();
            let d: Vec<(usize, usize)> = c.entries().map(|(i, e)| (i, addr(e))).collect();
            let f: Vec<(usize, usize)> = c.option_iter().enumerate().filter_map(|(i, e)| e.map(|e| (i, addr(e)))).collect();
            let g: Vec<usize> = c.indices().collect();
            let keys: Vec<usize> = m.keys().copied().collect();
            if c.len() != m.len() || a.len() != m.len() || g != keys || c.first_index() != keys.first().copied() {
                return "len, indices, first_index or the number iterated disagree".to_string();
            }
            if a != b || d != f || d != keys.iter().copied().zip(a.iter().copied()).collect::<Vec<_>>() {
                return "the views show items in different places".to_string();
            }
            for (i, x) in &d {
                if *x < lo || *x + size > hi || *x % std::mem::align_of::<E>() != 0 {
                    return format!("the item at {} is outside the container or misaligned", i);
                }
                if addr(c.get_unchecked(*i)) != *x || addr(c.index(*i)) != *x {
                    return format!("get_unchecked and index disagree about {}", i);
                }
            }
            let mut a = a;
            a.sort_unstable();
            if size > 0 && a.windows(2).any(|w| w[1] - w[0] < size) {
                return "items overlap".to_string();
            }
            if c.get(cap).is_some() || c.get(usize::MAX).is_some() || c.option_iter().count() != cap {
                return "something beyond the capacity".to_string();
            }
            String::new()
        });
        if self.judge(true, r.is_ok(), kind::VIEW) {
            let msg = r.ok().unwrap();
            if !msg.is_empty() {
                self.bad(kind::VIEW, &msg);
            }
        }
    }

    /// Read a slot without checking it.
    fn peek(&mut self, s: usize) -> Model {
        let cap = self.k.cap;
        let c = &self.sl[s].c;
        match call(|| (0..cap).filter_map(|i| c.get(i).map(|e| (i, look(e)))).collect::<Model>()) {
            Res::Ok(m) => m,
            _ => {
                self.bad(self.fam | kind::MODEL, "reading by index panicked");
                self.dead = true;
                Model::new()
            }
        }
    }

    fn verify(&mut self, s: usize, t: usize) {
        let name = self.run.log.rsplit('\n').next().unwrap_or("").to_string();
        self.run.ledger_errs(&name);
        if self.dead {
            return;
        }
        let mut total = 0;
        let mut seen = Vec::new();
        for i in 0..self.sl.len() {
            if !self.sl[i].c.intact() {
                self.bad(kind::CANARY, "memory next to the container was overwritten");
                self.dead = true;
                return;
            }
            let operand = i == s || i == t;
            let fam = self.fam;
            if !operand {
                self.fam |= kind::MODEL | kind::COPY;
            }
            let now = self.peek(i);
            if self.dead {
                self.run.ledger_errs(&name);
                return;
            }
            if now != self.sl[i].m {
                if !(self.adopt && operand) {
                    let msg = format!("slot {} holds {} instead of {}", i, show(&now), show(&self.sl[i].m));
                    self.bad(self.fam, &msg);
                }
                self.sl[i].m = now;
            }
            let n = self.sl[i].m.len();
            let c = &self.sl[i].c;
            let (l, e, f, first) = (c.len(), c.is_empty(), c.is_full(), c.first_index());
            if l != n || e != (n == 0) || f != (n == self.k.cap) || first != self.sl[i].m.keys().next().copied() {
                self.bad(self.fam | kind::MODEL, &format!("len is {}, is_empty {}, is_full {}, first_index {:?} with {} items", l, e, f, first, n));
            }
            if operand {
                let c = &self.sl[i].c;
                let it = call(|| c.entries().take(n + 1).map(|(i, e)| (i, look(e))).collect::<Vec<_>>());
                let ok = it.ok().map_or(false, |v| v.iter().copied().eq(self.sl[i].m.iter().map(|(i, o)| (*i, *o))));
                if !ok {
                    self.bad(kind::ITER | kind::VIEW, "iterating shows other entries than indexing");
                }
            }
            self.fam = fam;
            total += n as isize;
            if E::UID {
                seen.extend(self.sl[i].m.values().map(|o| o.uid));
            }
            for (i, o) in &self.sl[i].m {
                self.run.digest = mix(self.run.digest, mix(*i as u64, mix(o.uid, o.val as u64)));
            }
        }
        if E::UID {
            seen.sort_unstable();
            if seen.windows(2).any(|w| w[0] == w[1]) {
                self.bad(kind::LEDGER, "an element is in two places");
                self.dead = true;
            }
        }
        if E::COUNTED && E::live() != total + self.leaked {
            let l = E::live() - total - self.leaked;
            self.bad(kind::LEDGER, &if l > 0 { format!("{} elements were leaked", l) } else { format!("{} elements in containers were already dropped", -l) });
            self.leaked += l;
        }
        self.run.ledger_errs(&name);
    }

    fn settle_leak(&mut self) {
        if E::COUNTED {
            let total: isize = self.sl.iter().map(|s| s.m.len() as isize).sum();
            let l = E::live() - total - self.leaked;
            if l > 0 {
                self.leaked += l;
                self.run.count("leaks_allowed", l as u64);
            }
        }
    }

    fn after_fault(&mut self, aft: Aft, t: Tick) {
        self.fam = kind::FAULT;
        let mut leaky = t == Tick::Drop;
        match aft {
            Aft::Unchanged => {}
            Aft::Leaky => leaky = true,
            Aft::Consumed(s) => self.sl[s].m.clear(),
            Aft::Either(s, new) => {
                let now = self.peek(s);
                let v: Vec<(usize, u32)> = now.iter().map(|(i, o)| (*i, o.val)).collect();
                if now != self.sl[s].m && v != new {
                    self.bad(kind::FAULT, &format!("an interrupted clone_from left {}", show(&now)));
                }
                self.sl[s].m = now;
            }
        }
        if leaky {
            self.settle_leak();
        }
    }

    fn epilogue(&mut self, s: usize) {
        let cap = self.k.cap;
        for i in [0, cap / 2, cap.saturating_sub(1)] {
            let mut op = Op::new(O::Insert).a(i).v(900 + i as u32);
            op.s = s;
            op.t = s;
            if i < cap {
                self.step(&op);
            }
        }
        for _ in 0..2 {
            let mut op = Op::new(O::Pop);
            op.s = s;
            op.t = s;
            self.step(&op);
        }
    }

    fn stop(&mut self) {
        if self.dead {
            for s in self.sl.drain(..) {
                std::mem::forget(s);
            }
            self.run.tainted = true;
            return;
        }
        self.fam = kind::MODEL;
        for s in self.sl.drain(..) {
            if !call(|| drop(s.c)).is_ok() {
                self.run.violation(kind::MODEL | kind::FAULT, "dropping a container panicked");
            }
        }
        self.run.ledger_errs("at the end");
        if E::COUNTED && E::live() != self.leaked {
            let m = format!("{} elements too many are left after everything was dropped", E::live() - self.leaked);
            self.run.violation(kind::LEDGER, &m);
        }
    }

    // ------------------------------------------------------------ plans

    fn case(&mut self, faults: bool, setup: &mut dyn FnMut(&mut Self), op: &Op) {
        if !self.run.begin() {
            return;
        }
        let mut f = faults as u64;
        loop {
            self.start();
            setup(self);
            self.fx.fault = f;
            self.step(op);
            self.fx.fault = 0;
            let fired = self.fx.fired.is_some();
            if !self.dead {
                self.epilogue(op.s);
                if op.t != op.s {
                    self.epilogue(op.t);
                }
            }
            self.stop();
            if !fired || self.dead {
                break;
            }
            f += 1;
        }
        self.run.end();
    }

    fn unary(&self, at: &[usize], deep: bool) -> Vec<Op> {
        use O::*;
        let g = self.groups;
        let cap = self.k.cap;
        let mis = self.misuse > 0;
        let mut idx: Vec<usize> = if deep {
            (0..cap).collect()
        } else {
            let mut v: Vec<usize> = at.iter().flat_map(|&i| [i.wrapping_sub(1), i, i + 1]).chain([0, cap / 2, cap - 1, 63.min(cap - 1), 64.min(cap - 1), 127.min(cap - 1), 128.min(cap - 1)]).filter(|&i| i < cap).collect();
            v.sort_unstable();
            v.dedup();
            if v.len() > 24 {
                let st = v.len() / 12;
                v = v.into_iter().step_by(st).collect();
                v.push(cap - 1);
            }
            v
        };
        if mis {
            idx.extend([cap, cap + 1, cap * 2, 63, 64, 127, 128, 255, 256, 1023, 1024, 65536, 1 << (usize::BITS / 2), usize::MAX / 2, usize::MAX - 1, usize::MAX].iter().filter(|i| **i >= cap));
        }
        let mut v = Vec::new();
        if g & group::CORE != 0 {
            for o in [Drop, Move, Pop, First] {
                v.push(Op::new(o));
            }
            v.push(Op::new(New));
            v.push(Op::new(New).a(1));
            for &i in &idx {
                v.push(Op::new(Insert).a(i).v(777));
                v.push(Op::new(Remove).a(i));
                if at.len() <= 1 {
                    v.push(Op::new(Unit).a(i));
                    for &j in &idx {
                        v.push(Op::new(Pair).a(i).b(j));
                    }
                }
            }
        }
        if g & group::ACCESS != 0 {
            for &i in &idx {
                for o in [Get, GetMut, Unchecked, Index, IndexMut] {
                    v.push(Op::new(o).a(i).v(777));
                }
            }
        }
        if g & group::ITER != 0 {
            let n = at.len();
            let mut pats: Vec<Vec<usize>> = vec![vec![], vec![2], vec![3], vec![4], vec![20], vec![0, 20], vec![2 + n / 2], vec![2 + n], vec![1 + n.max(1)], vec![3, 3], vec![0, 2, 4], vec![2 + cap], vec![1 + cap], vec![2 + cap / 2]];
            for k in 1..=(n.min(if deep { 4 } else { 2 }) + 1) {
                pats.push(vec![0; k]);
            }
            pats.push(vec![0; n]);
            pats.push(vec![0; n + 1]);
            pats.dedup();
            for a in 0..KINDS {
                for p in &pats {
                    for fin in FIN {
                        if !deep && p.len() > 1 && fin != 0 && fin != 7 && fin != FORGET || fin > FORGET && !p.is_empty() {
                            continue;
                        }
                        v.push(Op::new(Iter).a(a).b(fin).p(p.clone()).v(600));
                    }
                }
            }
        }
        if g & group::VIEW != 0 {
            v.push(Op::new(View));
            v.push(Op::new(Fmt));
            v.push(Op::new(Fmt).a(1));
        }
        if g & group::COPY != 0 {
            v.push(Op::new(Clone));
        }
        if g & (group::COPY | group::BULK) != 0 {
            let mut p: Vec<usize> = (0..cap).map(|i| at.contains(&i) as usize).collect();
            v.push(Op::new(FromIter).p(p.clone()));
            while p.last() == Some(&0) {
                p.pop();
            }
            v.push(Op::new(FromIter).p(p.clone()));
            p.resize(cap + 3, 0);
            v.push(Op::new(FromIter).p(p.clone()));
            if mis {
                p[cap] = 1;
                v.push(Op::new(FromIter).p(p.clone()));
                p[cap] = 0;
                p[cap + 2] = 1;
                v.push(Op::new(FromIter).p(p.clone()));
            }
            p.truncate(cap);
            // Some of the bounds for each of the many sets.
            let some: usize = at.iter().sum();
            for h in (1..if mis { HINTS } else { HONEST }).filter(|h| cap < 5 || (h + some) % 6 == 0) {
                v.push(Op::new(FromIter).b(h).p(p.clone()));
                if let Some(last) = at.last() {
                    v.push(Op::new(FromIter).b(h).p(p[..=*last].to_vec()));
                }
            }
        }
        if g & group::REL != 0 {
            for c in 0..7 {
                for b in 0..at.len().max(1).min(if deep { 8 } else { 3 }) {
                    for a in [0, cap / 2, cap - 1] {
                        v.push(Op::new(RelMap).a(a).b(b).c(c).v(5));
                    }
                }
            }
        }
        if g & group::POOL != 0 {
            for f in [0x00, 0xff, 0xaa] {
                v.push(Op::new(PoolDefault).a(f));
                v.push(Op::new(PoolClone).a(f));
            }
        }
        v
    }

    fn binary(&self) -> Vec<Op> {
        let g = self.groups;
        let mut v = Vec::new();
        if g & group::COPY != 0 {
            v.push(Op::new(O::CloneFrom));
            v.push(Op::new(O::Clone));
        }
        if g & group::REL != 0 {
            v.push(Op::new(O::Rel));
        }
        v
    }

    /// The index sets to start from: all of them for small capacities, and
    /// telling ones otherwise.
    fn sets(&self, maxcap: usize) -> Vec<Vec<usize>> {
        let n = self.k.cap;
        if n <= maxcap && n <= 12 {
            return (0..1usize << n).map(|b| (0..n).filter(|i| b >> i & 1 != 0).collect()).collect();
        }
        let mut v: Vec<Vec<usize>> = vec![vec![], (0..n).collect(), (0..n).step_by(2).collect(), (0..n).skip(1).step_by(2).collect(), (0..n - 1).collect(), (1..n).collect(), (n / 2..n).collect(), (0..n / 2).collect()];
        for i in [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 511, 512, 1022, 1023, n - 1, n - 2] {
            if i < n {
                v.push(vec![i]);
                v.push((0..n).filter(|j| *j != i).collect());
                if i > 0 {
                    v.push(vec![0, i]);
                    v.push(vec![i - 1, i]);
                }
                if i < n - 1 {
                    v.push(vec![i, n - 1]);
                }
            }
        }
        v.push((0..n).filter(|i| i % 64 == 63 || i % 64 == 0).collect());
        v.push((0..n).filter(|i| i / 64 % 2 == 1).collect());
        v.push((0..n).filter(|i| i / 128 % 2 == 1).collect());
        v.sort();
        v.dedup();
        v
    }

    pub fn exhaustive(&mut self, faults: bool, maxcap1: usize, maxcap2: usize) {
        let n = self.k.cap;
        let deep = n <= maxcap1;
        let sets = self.sets(maxcap1);
        for at in &sets {
            for op in self.unary(at, deep) {
                self.case(faults, &mut |e| e.fill(0, at, 100), &op);
            }
        }
        let few: Vec<Vec<usize>> = if n <= maxcap2 { sets } else { sets.into_iter().step_by(5).collect() };
        for x in &few {
            for y in &few {
                for op in self.binary() {
                    for v in [100, 101] {
                        self.case(
                            faults,
                            &mut |e| {
                                e.fill(0, x, 100);
                                e.fill(1, y, v);
                            },
                            &op,
                        );
                    }
                }
            }
        }
    }

    pub fn random(&mut self, histories: u64, nops: usize, faults: bool) {
        let base = mix(mix(self.run.seed, hash_str(&self.name())), faults as u64 + 5);
        let cap = self.k.cap;
        for h in 0..histories {
            if !self.run.begin() {
                continue;
            }
            let mut rng = Rng::new(mix(base, h));
            self.start();
            let few = rng.chance(1, 3);
            for s in 0..2 {
                let d = [0, 1, 5, 10][rng.below(4)];
                let at: Vec<usize> = (0..cap).filter(|_| rng.below(10) < d).collect();
                let v = if few { 100 } else { rng.below(1000) as u32 };
                self.fill(s, &at, v);
            }
            let n = nops / 2 + rng.below(nops / 2 + 1);
            let mut grow = rng.below(3);
            for _ in 0..n {
                if self.dead {
                    break;
                }
                if rng.chance(1, 10) {
                    grow = rng.below(3);
                }
                let op = self.gen(&mut rng, grow, few);
                if faults && rng.chance(1, 3) {
                    self.fx.fault = 1 + rng.below(6) as u64;
                }
                self.step(&op);
                self.fx.fault = 0;
            }
            self.stop();
            self.run.end();
        }
    }

    fn gen(&mut self, rng: &mut Rng, grow: usize, few: bool) -> Op {
        use O::*;
        let g = self.groups;
        let cap = self.k.cap;
        let s = rng.below(2);
        let keys: Vec<usize> = self.sl[s].m.keys().copied().collect();
        let n = keys.len();
        let mut groups = Vec::new();
        for (b, w) in [(group::CORE, 10), (group::BULK, 1), (group::ACCESS, 3), (group::ITER, 4), (group::VIEW, 2), (group::COPY, 2), (group::REL, 3), (group::POOL, 2)] {
            let w = if b == group::CORE && g & b == 0 && g & group::STILL == 0 { 4 } else if g & b != 0 { w } else { 0 };
            groups.extend(std::iter::repeat(b).take(w));
        }
        let gr = groups[rng.below(groups.len())];
        let misuse = self.misuse;
        let idx = |rng: &mut Rng| -> usize {
            if rng.below(100) < misuse {
                return match rng.below(6) {
                    0 => cap,
                    1 => cap + rng.below(70),
                    2 => usize::MAX - rng.below(3),
                    3 => 1 << rng.below(usize::BITS as usize),
                    4 => 1024 + rng.below(2),
                    _ => usize::MAX / 2 + rng.below(2),
                };
            }
            match rng.below(5) {
                0 if n > 0 => keys[rng.below(n)],
                1 if n > 0 => (keys[rng.below(n)] + 1) % cap,
                2 => [0, cap - 1, 63 % cap, 64 % cap, 127 % cap, 128 % cap, 255 % cap, 256 % cap][rng.below(8)],
                _ => rng.below(cap),
            }
        };
        let mut op = match gr {
            group::CORE => match (grow, rng.below(10)) {
                (_, 0) => Op::new([New, Unit, Pair, Drop, Move, First][rng.below(6)]).a(idx(rng)).b(idx(rng)),
                (0, 1..=7) => Op::new(Insert).a(idx(rng)),
                (1, 1..=7) => {
                    let a = if n > 0 && rng.chance(2, 3) { keys[rng.below(n)] } else { idx(rng) };
                    Op::new(if rng.chance(1, 3) { Pop } else { Remove }).a(a)
                }
                (_, x) => Op::new([Insert, Insert, Remove, Remove, Pop][x % 5]).a(idx(rng)),
            },
            group::BULK => {
                let l = rng.below(cap + 1);
                let d = [1, 5, 9][rng.below(3)];
                let mut p: Vec<usize> = (0..l).map(|_| (rng.below(10) < d) as usize).collect();
                if rng.below(100) < misuse {
                    p.resize(cap + 1 + rng.below(3), 0);
                    if rng.chance(1, 2) {
                        p[cap] = 1;
                    }
                }
                let kinds = if rng.below(100) < misuse { HINTS } else { HONEST };
                Op::new(FromIter).b(rng.below(kinds)).p(p)
            }
            group::ACCESS => Op::new([Get, GetMut, Unchecked, Index, IndexMut][rng.below(5)]).a(idx(rng)),
            group::ITER => {
                let p = (0..rng.below(6)).map(|_| match rng.below(6) { 0 => 2 + rng.below(cap + 2), 1 => 2 + rng.below(3), 2 if rng.chance(1, 3) => 20, _ => 0 }).collect();
                Op::new(Iter).a(rng.below(KINDS)).b(FIN[rng.below(FIN.len())]).p(p)
            }
            group::VIEW => Op::new([View, View, Fmt][rng.below(3)]).a(rng.below(2)),
            group::COPY => Op::new([Clone, CloneFrom][rng.below(2)]),
            group::REL => {
                if rng.chance(1, 2) {
                    Op::new(Rel)
                } else {
                    Op::new(RelMap).a(rng.below(cap)).b(rng.below(n.max(1))).c(rng.below(7))
                }
            }
            _ => Op::new([PoolDefault, PoolClone, PoolClone][rng.below(3)]).a(rng.below(256)),
        };
        op.s = s;
        op.t = 1 - s;
        op.v = if few { rng.below(3) as u32 } else { rng.below(5000) as u32 };
        op
    }
}

fn show(m: &Model) -> String {
    let mut s: Vec<String> = m.iter().take(24).map(|(i, o)| if o.uid == 0 { format!("{}:{}", i, o.val) } else { format!("{}:{}#{}", i, o.val, o.uid) }).collect();
    if m.len() > 24 {
        s.push(format!("..{}", m.len()));
    }
    format!("{{{}}}", s.join(" "))
}

struct Raw(String);
impl std::fmt::Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

pub fn run_config<E: Elem>(run: &mut Run, k: SpCtor<E>) {
    if let Some(e) = run.get("elem") {
        if !e.split(',').any(|x| x == E::NAME) {
            return;
        }
    }
    let (ex1, ex2) = (run.num("ex1", 0) as usize, run.num("ex2", 0) as usize);
    let (histories, nops, faults) = (run.num("n", 0), run.num("ops", 30) as usize, run.num("faults", 0) != 0);
    let (mincap, maxcap) = (run.num("mincap", 0) as usize, run.num("maxcap", 1 << 20) as usize);
    if k.cap < mincap || k.cap > maxcap {
        return;
    }
    // Beyond `ex1` only telling index sets are tried, up to `ex3`.
    let ex3 = run.num("ex3", 0) as usize;
    let mut e = Eng::new(run, k);
    if ex1 > 0 && k.cap < ex1.max(ex3) {
        e.exhaustive(faults, ex1 - 1, ex2.max(1) - 1);
    }
    if histories > 0 {
        let h = if k.cap > 300 { histories / 8 + 1 } else if k.cap > 80 { histories / 3 + 1 } else { histories };
        e.random(h, nops, faults);
    }
}
