//! Short histories with as little around the calls as can be, for Miri and
//! sanitizers: what decides is their reports, so contents are only compared at
//! the end. Elements own heap memory, are large, small, or have no size.
//!
//! Histories of every kind of call; among them, every mutable reference of a
//! borrow is held at once while more are asked for.

use sized_chunks::ring_buffer::{Array, ArrayMut, HasLength};
use sized_chunks::{Chunk, InlineArray, RingBuffer, SparseChunk};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vh::core::*;

trait El: Clone + Ord + Hash + Debug + 'static {
    const NAME: &'static str;
    fn mk(v: u32) -> Self;
    fn val(&self) -> u32;
}
impl El for Box<u32> {
    const NAME: &'static str = "box";
    fn mk(v: u32) -> Self {
        Box::new(v)
    }
    fn val(&self) -> u32 {
        **self
    }
}
impl El for u8 {
    const NAME: &'static str = "u8";
    fn mk(v: u32) -> Self {
        v as u8
    }
    fn val(&self) -> u32 {
        *self as u32
    }
}
impl El for () {
    const NAME: &'static str = "unit";
    fn mk(_: u32) -> Self {}
    fn val(&self) -> u32 {
        0
    }
}
/// Aligned more than a word, with padding.
#[repr(align(32))]
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Wide(u32);
impl El for Wide {
    const NAME: &'static str = "wide";
    fn mk(v: u32) -> Self {
        Wide(v)
    }
    fn val(&self) -> u32 {
        self.0
    }
}

fn vals<'a, E: El>(it: impl Iterator<Item = &'a E>) -> Vec<u32> {
    it.map(|e| e.val()).collect()
}
fn norm<E: El>(v: u32) -> u32 {
    E::mk(v).val()
}

/// Every mutable reference from here, asked for in this pattern, held while
/// more are asked for; then written in reverse. Returns how many there were.
fn hold<'a, E: El>(mut it: impl DoubleEndedIterator<Item = &'a mut E>, pat: u64, base: u32) -> usize {
    let mut held: Vec<&'a mut E> = Vec::new();
    let mut p = pat;
    loop {
        let r = if p & 1 == 0 { it.next() } else { it.next_back() };
        p = p.rotate_right(1);
        match r {
            Some(r) => held.push(r),
            None => break,
        }
        // What was given out before is still good.
        let k = held.len();
        let v = held[k / 2].val();
        *held[k / 2] = E::mk(v);
    }
    drop(it);
    for i in (0..held.len()).rev() {
        *held[i] = E::mk(base + i as u32);
    }
    for i in 1..held.len() {
        let (a, b) = held.split_at_mut(i);
        std::mem::swap(&mut *a[i - 1], &mut *b[0]);
    }
    let ok = held.iter().all(|e| e.val() != norm::<E>(base.wrapping_sub(9)) || std::mem::size_of::<E>() == 0);
    if ok {
        held.len()
    } else {
        usize::MAX
    }
}
/// The same for iterators that only go forward.
fn hold_fwd<'a, E: El>(it: impl Iterator<Item = &'a mut E>, base: u32) -> usize {
    hold(it.collect::<Vec<_>>().into_iter(), 0, base)
}

struct Hist<'r> {
    run: &'r mut Run,
    rng: Rng,
    bad: Option<String>,
    /// Only calls that hand out references.
    still: bool,
}
impl<'r> Hist<'r> {
    fn note(&mut self, what: &str) {
        self.run.ops += 1;
        self.run.log.push(' ');
        self.run.log.push_str(what);
    }
    fn idx(&mut self, n: usize, misuse: bool) -> usize {
        if misuse && self.rng.chance(1, 10) {
            match self.rng.below(4) {
                0 => usize::MAX,
                1 => n + 1 + self.rng.below(3),
                2 => usize::MAX / 2 + 1,
                _ => usize::MAX - self.rng.below(20),
            }
        } else {
            match self.rng.below(4) {
                0 => 0,
                1 => n,
                _ => self.rng.below(n + 1),
            }
        }
    }
}

const SEQ: [&str; 36] = ["push_back", "push_back", "push_front", "push_front", "pop_front", "pop_back", "insert", "insert", "insert", "remove", "remove", "remove", "drop_left", "drop_right", "split_off", "append", "drain_from_front", "drain_from_back", "from_front", "from_back", "drain_from", "insert_from", "insert_from", "insert_from", "insert_ordered", "clear", "clone", "clone_from", "drain", "into_iter", "extend", "iter_mut", "collect_from", "collect", "compare", "index"];
const WIN: [&str; 10] = ["iter_mut", "iter_mut", "swap", "sort_unstable", "split_at", "unmut", "buffer.sort", "buffer.swap", "to_owned", "get_mut"];
const SPA: [&str; 18] = ["insert", "insert", "insert", "remove", "remove", "pop", "get", "get_mut", "iter_mut", "iter_mut", "option_iter_mut", "option_iter_mut", "drain", "option_drain", "clone", "collect", "iter", "pair"];
const INL: [&str; 19] = ["push", "push", "pop", "insert", "insert", "insert", "remove", "remove", "remove", "split_off", "clear", "clone", "drain", "into_iter", "extend", "iter_mut", "move", "into_chunk", "sort"];

macro_rules! sequence {
    ($fun:ident, $C:ident, $ring:expr) => {
        fn $fun<E: El, const N: usize>(h: &mut Hist, nops: usize) {
            let mut c: $C<E, N> = $C::new();
            let mut d: $C<E, N> = $C::new();
            let mut m: Vec<u32> = Vec::new();
            let mut n: Vec<u32> = Vec::new();
            let mut tick = 0u32;
            // Somewhere within the storage.
            for i in 0..h.rng.below(N + 1) {
                if $ring || i % 2 == 0 {
                    c.push_back(E::mk(i as u32));
                } else {
                    c.push_front(E::mk(i as u32));
                }
            }
            for _ in 0..h.rng.below(c.len() + 1) {
                drop(c.pop_front());
            }
            m.extend(vals(c.iter()));
            for _ in 0..nops {
                let op = if h.still { [31, 31, 31, 35][h.rng.below(4)] } else { h.rng.below(36) };
                if !h.still && h.rng.chance(1, 8) {
                    std::mem::swap(&mut c, &mut d);
                    std::mem::swap(&mut m, &mut n);
                }
                tick += 10;
                let v = |i: u32| E::mk(tick + i);
                let w = |i: u32| norm::<E>(tick + i);
                let len = m.len();
                let room = N - len;
                let i = h.idx(len, true);
                let k = h.idx(len, true);
                let pat = h.rng.next();
                h.note(SEQ[op]);
                let mark = m.clone();
                let (mark2, cm) = (n.clone(), &mut c);
                let mut bad: Option<&'static str> = None;
                let mut new: Option<($C<E, N>, Vec<u32>)> = None;
                let r = catch_call(|| match op {
                    0 | 1 => {
                        cm.push_back(v(0));
                        m.push(w(0));
                    }
                    2 | 3 => {
                        cm.push_front(v(0));
                        m.insert(0, w(0));
                    }
                    4 => {
                        drop(cm.pop_front());
                        if !m.is_empty() {
                            m.remove(0);
                        }
                    }
                    5 => {
                        drop(cm.pop_back());
                        m.pop();
                    }
                    6 | 7 | 8 => {
                        cm.insert(i, v(0));
                        m.insert(i, w(0));
                    }
                    9 | 10 | 11 => {
                        drop(cm.remove(i));
                        m.remove(i);
                    }
                    12 => {
                        cm.drop_left(i);
                        m.drain(..i);
                    }
                    13 => {
                        cm.drop_right(i);
                        m.truncate(i);
                    }
                    14 => {
                        let x = cm.split_off(i);
                        new = Some((x, m.split_off(i)));
                    }
                    15 => {
                        let was = n.len();
                        if was + m.len() <= N {
                            cm.append(&mut d);
                            m.append(&mut n);
                        } else {
                            cm.append(&mut d);
                            bad = Some("append beyond the capacity");
                        }
                    }
                    16 => {
                        cm.drain_from_front(&mut d, k);
                        m.extend(n.drain(..k));
                    }
                    17 => {
                        cm.drain_from_back(&mut d, k);
                        let at = n.len() - k;
                        let t: Vec<u32> = n.drain(at..).collect();
                        m.splice(0..0, t);
                    }
                    18 => {
                        let x = $C::from_front(cm, i);
                        new = Some((x, m.drain(..i).collect()));
                    }
                    19 => {
                        let x = $C::from_back(cm, i);
                        let at = m.len() - i;
                        new = Some((x, m.drain(at..).collect()));
                    }
                    20 => {
                        let x = $C::drain_from(cm);
                        new = Some((x, std::mem::take(&mut m)));
                    }
                    21 | 22 | 23 => {
                        let g = (pat % 6) as usize;
                        let items: Vec<E> = (0..g as u32).map(v).collect();
                        cm.insert_from(i, items);
                        m.splice(i..i, (0..g as u32).map(w));
                        if g > room {
                            bad = Some("insert_from beyond the capacity");
                        }
                    }
                    24 => {
                        let sorted = m.windows(2).all(|p| p[0] <= p[1]);
                        if sorted {
                            cm.insert_ordered(v(5));
                            let at = m.partition_point(|x| *x < w(5));
                            m.insert(at, w(5));
                        }
                    }
                    25 => {
                        cm.clear();
                        m.clear();
                    }
                    26 => {
                        let x = cm.clone();
                        new = Some((x, m.clone()));
                    }
                    27 => {
                        cm.clone_from(&d);
                        m = n.clone();
                    }
                    28 => {
                        let mut it = cm.drain();
                        let take = (pat % 4) as usize;
                        for j in 0..take {
                            if pat >> (8 + j) & 1 == 0 {
                                drop(it.next());
                                if !m.is_empty() {
                                    m.remove(0);
                                }
                            } else {
                                drop(it.next_back());
                                m.pop();
                            }
                        }
                    }
                    29 => {
                        let mut it = std::mem::replace(cm, $C::new()).into_iter();
                        let take = (pat % 4) as usize;
                        for j in 0..take {
                            let x = if pat >> (8 + j) & 1 == 0 { it.next() } else { it.next_back() };
                            drop(x);
                        }
                        m.clear();
                    }
                    30 => {
                        let g = (pat % 5) as usize;
                        cm.extend((0..g as u32).map(v).take(room));
                        m.extend((0..g as u32).map(w).take(room));
                    }
                    31 => {
                        let k = hold(cm.iter_mut(), pat, tick);
                        if k != m.len() {
                            bad = Some("iter_mut");
                        }
                        m = vals(cm.iter());
                    }
                    32 => {
                        let mut it = (0..9u32).map(v);
                        let g = (pat % (N as u64 + 1).min(9)) as usize;
                        let x = $C::collect_from(&mut it, g);
                        new = Some((x, (0..g as u32).map(w).collect()));
                    }
                    33 => {
                        let x: $C<E, N> = (0..room as u32).map(v).collect();
                        new = Some((x, (0..room as u32).map(w).collect()));
                    }
                    34 => {
                        let same = *cm == d;
                        if std::mem::size_of::<E>() > 0 && same != (m == n) {
                            bad = Some("equality");
                        }
                        let _ = (*cm).cmp(&d);
                        let _ = format!("{:?}", cm);
                    }
                    _ => {
                        if i < m.len() {
                            cm[i] = v(1);
                            m[i] = w(1);
                            if cm.iter().rev().map(|e| e.val()).next() != m.last().copied() {
                                bad = Some("last");
                            }
                        }
                    }
                });
                if !r {
                    // Refused, by us, by them, or both: as before.
                    m = mark;
                    n = mark2;
                }
                if let Some((x, y)) = new {
                    d = x;
                    n = y;
                }
                if bad.is_some() || c.len() != m.len() || d.len() != n.len() {
                    h.bad = Some(format!("operation {} with {} {}: {:?}", op, i, k, bad));
                    std::mem::forget((c, d));
                    return;
                }
            }
            if vals(c.iter()) != m || vals(d.iter()) != n {
                h.bad = Some(format!("{:?} {:?} instead of {:?} {:?}", c, d, m, n));
            }
        }
    };
}

/// True if it ended without a panic.
fn catch_call(f: impl FnOnce()) -> bool {
    call(|| catch_unwind(AssertUnwindSafe(f)).is_ok()).ok() == Some(true)
}

sequence!(chunk, Chunk, false);
sequence!(ring, RingBuffer, true);

/// RingBuffer's slices.
fn windows<E: El, const N: usize>(h: &mut Hist, nops: usize) {
    let mut c: RingBuffer<E, N> = RingBuffer::new();
    for _ in 0..nops {
        for _ in 0..h.rng.below(N + 1) {
            if c.is_full() {
                drop(c.pop_front());
            }
            c.push_back(E::mk(h.rng.below(200) as u32));
        }
        let mut m = vals(c.iter());
        let lo = h.rng.below(m.len() + 1);
        let hi = lo + h.rng.below(m.len() - lo + 1);
        let (a, b) = (lo + h.rng.below(hi - lo + 1), h.rng.below(hi - lo + 1));
        let pat = h.rng.next();
        let op = h.rng.below(10);
        h.note(WIN[op]);
        let mut bad = false;
        let r = catch_call(|| match op {
            0 | 1 => {
                let mut s = c.slice_mut(lo..hi);
                bad |= hold(s.iter_mut(), pat, 300) != hi - lo;
                m = vals(c.iter());
            }
            2 => {
                let mut s = c.slice_mut(lo..hi);
                if hi > lo {
                    let (x, y) = (b.min(hi - lo - 1), (a - lo).min(hi - lo - 1));
                    s.swap(x, y);
                    m.swap(lo + x, lo + y);
                    s[x] = E::mk(7);
                    m[lo + x] = norm::<E>(7);
                }
            }
            3 => {
                let mut s = c.slice_mut(lo..hi);
                s.sort_unstable();
                m[lo..hi].sort();
            }
            4 => {
                let s = c.slice(lo..hi);
                let (l, r) = s.split_at(a - lo);
                bad |= vals(l.iter()) != m[lo..a] || vals(r.iter().rev()) != m[a..hi].iter().rev().copied().collect::<Vec<_>>();
                bad |= l.to_owned().len() != a - lo;
            }
            5 => {
                let s = c.slice_mut(lo..hi).slice(..b).unmut();
                bad |= vals(s.iter()) != m[lo..lo + b];
                bad |= s.get(b).is_some();
            }
            6 => {
                c.sort_unstable();
                m.sort();
            }
            7 => {
                if !m.is_empty() {
                    let (x, y) = (lo.min(m.len() - 1), hi.min(m.len() - 1));
                    c.swap(x, y);
                    m.swap(x, y);
                }
            }
            8 => {
                let s = c.slice_mut(lo..hi);
                drop(s.to_owned());
                drop(format!("{:?}", s));
                bad |= s.first().map(|e| e.val()) != m[lo..hi].first().copied();
            }
            _ => {
                let mut s = c.slice_mut(..);
                if let (Some(x), true) = (s.get_mut(lo), lo < m.len()) {
                    *x = E::mk(3);
                    m[lo] = norm::<E>(3);
                }
            }
        });
        if !r || bad || vals(c.iter()) != m {
            h.bad = Some(format!("window {} {}..{} {} {}: {} {}", op, lo, hi, a, b, r, bad));
            std::mem::forget(c);
            return;
        }
    }
}

macro_rules! sparse_sizes {
    ($($n:expr => $fun:ident),*) => {$(
        fn $fun<E: El>(h: &mut Hist, nops: usize) {
            const N: usize = $n;
            let mut c: SparseChunk<E, N> = SparseChunk::new();
            let mut m: BTreeMap<usize, u32> = BTreeMap::new();
            for i in 0..h.rng.below(N + 1) {
                if h.rng.chance(1, 2) {
                    c.insert(i, E::mk(i as u32));
                    m.insert(i, norm::<E>(i as u32));
                }
            }
            let mut tick = 0;
            for _ in 0..nops {
                tick += 10;
                let i = h.idx(N - 1, true);
                let pat = h.rng.next();
                let op = if h.still { 7 + h.rng.below(5) } else { h.rng.below(18) };
                h.note(SPA[op]);
                let (v, w) = (E::mk(tick), norm::<E>(tick));
                let mark = m.clone();
                let mut bad = false;
                let r = catch_call(|| match op {
                    0 | 1 | 2 => {
                        let x = c.insert(i, v).map(|e| e.val());
                        bad |= x != m.insert(i, w);
                    }
                    3 | 4 => bad |= c.remove(i).map(|e| e.val()) != m.remove(&i),
                    5 => bad |= c.pop().map(|e| e.val()) != m.pop_first().map(|x| x.1),
                    6 => bad |= c.get(i).map(|e| e.val()) != m.get(&i).copied(),
                    7 => {
                        if let Some(x) = c.get_mut(i) {
                            *x = v;
                            m.insert(i, w);
                        }
                    }
                    8 | 9 => {
                        bad |= hold_fwd(c.iter_mut(), tick) != m.len();
                        m = c.entries().map(|(i, e)| (i, e.val())).collect();
                    }
                    10 | 11 => {
                        bad |= hold_fwd(c.option_iter_mut().flatten(), tick) != m.len();
                        m = c.entries().map(|(i, e)| (i, e.val())).collect();
                    }
                    12 => {
                        let take = (pat % 4) as usize;
                        let mut it = std::mem::replace(&mut c, SparseChunk::new()).drain();
                        for _ in 0..take {
                            drop(it.next());
                        }
                        m.clear();
                    }
                    13 => {
                        let take = (pat % 6) as usize;
                        let mut it = std::mem::replace(&mut c, SparseChunk::new()).option_drain();
                        for _ in 0..take {
                            drop(it.next());
                        }
                        m.clear();
                    }
                    14 => {
                        let x = c.clone();
                        bad |= x != c;
                        c = x;
                    }
                    15 => {
                        let g = (pat % (N as u64 + 1)) as usize;
                        c = (0..g).map(|i| if pat >> (i % 60) & 1 == 0 { Some(E::mk(i as u32)) } else { None }).collect();
                        m = (0..g).filter(|i| pat >> (i % 60) & 1 == 0).map(|i| (i, norm::<E>(i as u32))).collect();
                    }
                    16 => {
                        bad |= vals(c.iter()) != m.values().copied().collect::<Vec<_>>();
                        bad |= c.option_iter().flatten().count() != m.len();
                        drop(format!("{:?}", c));
                    }
                    _ => {
                        let j = (pat % N as u64) as usize;
                        c = if i < N && j != i { SparseChunk::pair(i, v.clone(), j, v) } else { SparseChunk::unit(j, v) };
                        m = BTreeMap::new();
                        m.insert(j, w);
                        if i < N {
                            m.insert(i, w);
                        }
                        m = c.entries().map(|(i, e)| (i, e.val())).collect();
                    }
                });
                if !r {
                    m = mark;
                }
                if bad || c.len() != m.len() {
                    h.bad = Some(format!("operation {} at {}", op, i));
                    std::mem::forget(c);
                    return;
                }
            }
            if !c.entries().map(|(i, e)| (i, e.val())).eq(m.into_iter()) {
                h.bad = Some("contents".into());
            }
        }
    )*};
}
sparse_sizes!(1 => sp1, 2 => sp2, 5 => sp5, 8 => sp8, 17 => sp17, 33 => sp33, 64 => sp64, 65 => sp65, 128 => sp128, 130 => sp130);

fn inline<E: El, T: 'static>(h: &mut Hist, nops: usize) {
    let cap = InlineArray::<E, T>::CAPACITY;
    let lim = cap.min(20);
    let mut c: InlineArray<E, T> = InlineArray::new();
    let mut m: Vec<u32> = Vec::new();
    for i in 0..h.rng.below(lim + 1) {
        c.push(E::mk(i as u32));
        m.push(norm::<E>(i as u32));
    }
    let mut tick = 0u32;
    for _ in 0..nops {
        tick += 10;
        let i = h.idx(m.len(), true);
        let pat = h.rng.next();
        let op = if h.still { 15 } else { h.rng.below(19) };
        h.note(INL[op]);
        let v = |i: u32| E::mk(tick + i);
        let w = |i: u32| norm::<E>(tick + i);
        if m.len() >= 40 && m.len() < cap {
            c.clear();
            m.clear();
        }
        let room = (cap - m.len()).min(50);
        let mark = m.clone();
        let mut bad = false;
        let r = catch_call(|| match op {
            0 | 1 => {
                c.push(v(0));
                m.push(w(0));
            }
            2 => bad |= c.pop().map(|e| e.val()) != m.pop(),
            3 | 4 | 5 => {
                c.insert(i, v(0));
                m.insert(i, w(0));
            }
            6 | 7 | 8 => {
                let x = c.remove(i).map(|e| e.val());
                bad |= x != if i < m.len() { Some(m.remove(i)) } else { None };
            }
            9 => {
                let x = c.split_off(i);
                bad |= vals(x.iter()) != m.split_off(i);
            }
            10 => {
                c.clear();
                m.clear();
            }
            11 => {
                let x = c.clone();
                bad |= x != c;
                c = x;
            }
            12 => {
                let mut it = c.drain();
                for j in 0..(pat % 4) as usize {
                    let (x, y) = if pat >> (8 + j) & 1 == 0 { (it.next(), if m.is_empty() { None } else { Some(m.remove(0)) }) } else { (it.next_back(), m.pop()) };
                    bad |= x.map(|e| e.val()) != y;
                }
            }
            13 => {
                let mut it = std::mem::replace(&mut c, InlineArray::new()).into_iter();
                for _ in 0..pat % 4 {
                    drop(it.next());
                }
                m.clear();
            }
            14 => {
                c.extend((0..4u32).map(v).take(room));
                m.extend((0..4u32).map(w).take(room));
            }
            15 => {
                bad |= hold(c.iter_mut(), pat, tick) != m.len();
                m = vals(c.iter());
            }
            16 => {
                // Moved to the heap and back.
                let b = Box::new(std::mem::replace(&mut c, InlineArray::new()));
                c = *b;
            }
            17 => {
                let x: Chunk<E, 64> = Chunk::from(&mut c);
                bad |= !c.is_empty() || vals(x.iter()) != m;
                c.extend(x);
            }
            _ => {
                c.sort();
                m.sort();
                drop(format!("{:?}", c));
            }
        });
        if !r {
            m = mark;
        }
        if bad || c.len() != m.len() {
            h.bad = Some(format!("operation {} at {}", op, i));
            std::mem::forget(c);
            return;
        }
    }
    if vals(c.iter()) != m {
        h.bad = Some("contents".into());
    }
}

type Prog = fn(&mut Hist, usize);

fn main() {
    let mut run = Run::from_args();
    let n = run.num("n", 20);
    let nops = run.num("ops", 25) as usize;
    let still = run.get("still").is_some();
    let which = run.get("of").unwrap_or("chunk,ring,window,sparse,inl").to_string();
    let mut progs: Vec<(&str, String, Prog)> = Vec::new();
    macro_rules! caps {
        ($name:expr, $f:ident, $e:ty: $($n:expr),*) => {$(
            progs.push(($name, format!("{}<{},{}>", $name, <$e as El>::NAME, $n), $f::<$e, $n>));
        )*};
    }
    macro_rules! hosts {
        ($e:ty: $($t:ty),*) => {$(
            progs.push(("inl", format!("InlineArray<{},{}>", <$e as El>::NAME, stringify!($t)), inline::<$e, $t>));
        )*};
    }
    macro_rules! sparses {
        ($e:ty: $($f:ident),*) => {$(
            progs.push(("sparse", format!("SparseChunk<{}>::{}", <$e as El>::NAME, stringify!($f)), $f::<$e>));
        )*};
    }
    caps!("chunk", chunk, Box<u32>: 1, 2, 4, 7, 12);
    caps!("chunk", chunk, u8: 5);
    caps!("chunk", chunk, (): 3, 6);
    caps!("chunk", chunk, Wide: 5);
    caps!("ring", ring, Box<u32>: 1, 2, 4, 7, 12);
    caps!("ring", ring, u8: 5);
    caps!("ring", ring, (): 3, 6);
    caps!("ring", ring, Wide: 5);
    caps!("window", windows, Box<u32>: 1, 3, 6, 9);
    caps!("window", windows, (): 4);
    caps!("window", windows, Wide: 5);
    sparses!(Box<u32>: sp1, sp2, sp5, sp8, sp17, sp33, sp64, sp65, sp128, sp130);
    sparses!((): sp5, sp65);
    sparses!(Wide: sp2, sp8);
    hosts!(Box<u32>: [usize; 1], [usize; 2], [usize; 5], [usize; 9], [u8; 60], [u64; 17]);
    hosts!(u8: [u8; 8], [u8; 13], [u16; 9]);
    hosts!((): [usize; 1], [u8; 20]);
    hosts!(Wide: [u8; 96]);
    hosts!(u8: u64);
    for (group, name, f) in progs {
        if !which.split(',').any(|w| w == group) {
            continue;
        }
        for k in 0..n {
            if !run.begin() {
                continue;
            }
            run.log = name.clone();
            let rng = Rng::new(mix(mix(run.seed, hash_str(&name)), k));
            let mut h = Hist { run: &mut run, rng, bad: None, still };
            let ok = catch_call(|| f(&mut h, nops));
            let bad = h.bad.take();
            run.distinct(mix(hash_str(&name), k));
            if !ok {
                run.violation(kind::MODEL, &format!("{}: looking at it panicked", name));
            } else if let Some(b) = bad {
                run.violation(kind::MODEL, &format!("{}: {}", name, b));
            }
            run.end();
        }
    }
    run.finish()
}
