//! Everything is kept inside the container: a counting allocator watches each
//! call, element addresses are compared with the container's, sizes with a
//! formula, and the containers are moved about by copying their bytes.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of, MaybeUninit};

use sized_chunks::ring_buffer::{Array, ArrayMut, HasLength};
use sized_chunks::{Chunk, InlineArray, RingBuffer, SparseChunk};
use vh::core::*;

// ---------------------------------------------------------------- the monitor

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static DROPS: Cell<u64> = const { Cell::new(0) };
}

struct Watch;

fn seen() {
    // The thread's storage is gone when a thread ends: nothing is armed then.
    let _ = ARMED.try_with(|a| {
        if a.get() {
            SEEN.with(|s| s.set(s.get() + 1));
        }
    });
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        seen();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        seen();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        seen();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        seen();
        System.dealloc(p, l)
    }
}

#[global_allocator]
static WATCH: Watch = Watch;

/// Make a call of the crate; whatever it does with the heap is a violation,
/// unless it panics.
fn quiet<T>(run: &mut Run, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    run.ops += 1;
    if run.log.len() < LOG {
        run.log.push_str(what);
        run.log.push(' ');
    }
    let r = call(|| {
        SEEN.with(|s| s.set(0));
        ARMED.with(|a| a.set(true));
        let r = f();
        ARMED.with(|a| a.set(false));
        r
    });
    ARMED.with(|a| a.set(false));
    match r {
        Res::Panic => {
            run.refused += 1;
            None
        }
        Res::Ok(t) => {
            let n = SEEN.with(|s| s.get());
            if n > 0 {
                run.violation(kind::HEAP, &format!("{} went to the heap {} times", what, n));
            }
            Some(t)
        }
    }
}

// ---------------------------------------------------------------- elements

trait El: Clone + Ord + Hash + Debug + 'static {
    fn mk(v: u32) -> Self;
    fn id(&self) -> u32;
}
macro_rules! el {
    ($($t:ty, $v:ident => $mk:expr, $s:ident => $id:expr;)*) => {$(
        impl El for $t {
            fn mk($v: u32) -> Self { $mk }
            fn id(&self) -> u32 { let $s = self; $id }
        }
    )*};
}
/// Has a destructor, and owns nothing.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Drops(u32);
impl Clone for Drops {
    fn clone(&self) -> Self {
        Drops(self.0)
    }
}
impl Drop for Drops {
    fn drop(&mut self) {
        DROPS.with(|d| d.set(d.get() + 1));
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(align(32))]
struct Wide(u32);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Long([u64; 40]);
el! {
    u8, v => v as u8, s => *s as u32;
    u32, v => v, s => *s;
    (), _v => (), _s => 0;
    Drops, v => Drops(v), s => s.0;
    Wide, v => Wide(v), s => s.0;
    Long, v => Long([v as u64; 40]), s => s.0[39] as u32;
    (u8, u16), v => (v as u8, v as u16), s => s.1 as u32;
}

// ---------------------------------------------------------------- places

/// A container that lives now here, now there; where it isn't, there is
/// garbage.
struct Place<C> {
    spots: [Box<MaybeUninit<C>>; 2],
    at: usize,
}
impl<C> Place<C> {
    fn new(c: C) -> Self {
        Place { spots: [Box::new(MaybeUninit::new(c)), Box::new(MaybeUninit::uninit())], at: 0 }
    }
    fn get(&mut self) -> &mut C {
        unsafe { &mut *self.spots[self.at].as_mut_ptr() }
    }
    fn shift(&mut self) {
        let from = self.spots[self.at].as_mut_ptr();
        self.at ^= 1;
        let to = self.spots[self.at].as_mut_ptr();
        unsafe {
            std::ptr::copy_nonoverlapping(from, to, 1);
            std::ptr::write_bytes(from as *mut u8, 0xA5, size_of::<C>());
        }
    }
    fn take(mut self) -> C {
        let c = std::mem::replace(&mut self.spots[self.at], Box::new(MaybeUninit::uninit()));
        unsafe { c.assume_init_read() }
    }
}

/// What is in a container, and where.
trait Seen {
    fn seen(&self) -> Vec<(usize, u32, usize)>;
}
macro_rules! seen {
    ([$($g:tt)*] $t:ty, $s:ident => $it:expr) => {
        impl<$($g)*> Seen for $t {
            fn seen(&self) -> Vec<(usize, u32, usize)> {
                let $s = self;
                $it.map(|(i, a)| (i, a.id(), a as *const A as usize)).collect()
            }
        }
    };
}
seen!([A: El, const N: usize] Chunk<A, N>, s => s.iter().enumerate());
seen!([A: El, const N: usize] RingBuffer<A, N>, s => s.iter().enumerate());
seen!([A: El, T: 'static] InlineArray<A, T>, s => s.iter().enumerate());

/// Move it, and see whether it's still all there, all inside.
fn moved<C: Seen>(run: &mut Run, p: &mut Place<C>, elem: usize) {
    let was = p.get().seen();
    p.shift();
    let base = p.get() as *const C as usize;
    let is = p.get().seen();
    if was.len() != is.len() || was.iter().zip(&is).any(|(a, b)| a.0 != b.0 || a.1 != b.1) {
        run.violation(kind::HEAP, &format!("moving changed {:?} into {:?}", was, is));
    }
    for (i, _, at) in &is {
        if elem > 0 && (*at < base || at + elem > base + size_of::<C>()) {
            run.violation(kind::HEAP, &format!("the element {} isn't inside the container", i));
        }
    }
    run.count("elements_found_inside", is.len() as u64);
    run.count("moves", 1);
}

/// The size of fields of these sizes and alignments, well arranged.
fn fits(parts: &[(usize, usize)]) -> usize {
    let sum: usize = parts.iter().map(|p| p.0).sum();
    let al = parts.iter().map(|p| p.1).max().unwrap();
    (sum + al - 1) / al * al
}
fn small<C>(run: &mut Run, name: &str, parts: &[(usize, usize)]) {
    let most = fits(parts);
    if size_of::<C>() > most {
        run.violation(kind::HEAP, &format!("{} takes {} bytes, not {}", name, size_of::<C>(), most));
    }
    run.count("sizes", 1);
}
const WORDS: (usize, usize) = (2 * size_of::<usize>(), align_of::<usize>());

/// Formatting goes here.
struct Sink([u8; 64], usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0[self.1 % 64] = b;
            self.1 += 1;
        }
        Ok(())
    }
}
fn print<T: Debug>(t: &T) {
    use std::fmt::Write;
    let mut s = Sink([0; 64], 0);
    let _ = write!(s, "{:?} {:#?}", t, t);
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Consume an iterator from both ends, stopping after `n`.
fn walk<I: DoubleEndedIterator>(mut i: I, n: usize) -> usize {
    let mut k = 0;
    while k < n {
        if (if k % 3 == 1 { i.next_back() } else { i.next() }).is_none() {
            break;
        }
        k += 1;
    }
    k
}
fn some<A: El>(n: usize, v: u32) -> impl ExactSizeIterator<Item = A> + Clone {
    (0..n).map(move |i| A::mk(v.wrapping_add(i as u32)))
}

/// A case: a container of its own, `ops` calls, and between them moves.
struct Case<'r> {
    run: &'r mut Run,
    rng: Rng,
    name: String,
}
fn cases(run: &mut Run, name: String, n: u64, mut f: impl FnMut(&mut Case<'_>)) {
    for h in 0..n {
        if !run.begin() {
            continue;
        }
        run.log = format!("{}: ", name);
        let rng = Rng::new(mix(mix(run.seed, h), hash_str(&name)));
        let mut c = Case { run, rng, name: name.clone() };
        f(&mut c);
        c.run.end();
    }
}
impl Case<'_> {
    fn pick<'a, T>(&mut self, of: &[(&'a str, T)], state: &[usize]) -> (&'a str, T)
    where
        T: Copy,
    {
        let x = &of[self.rng.below(of.len())];
        let mut h = hash_str(&self.name);
        h = mix(h, hash_str(x.0));
        for s in state {
            h = mix(h, *s as u64);
        }
        self.run.distinct(h);
        (x.0, x.1)
    }
}

// ---------------------------------------------------------------- Chunk and RingBuffer

/// A call on a container and one more of its kind; `k` and `n` are numbers in
/// reach, `v` is a value.
struct With<'a, C> {
    c: &'a mut C,
    o: &'a mut C,
    k: usize,
    n: usize,
    v: u32,
}

macro_rules! common {
    ($C:ident, $A:ident, $N:ident) => {
        vec![
            ("new", |w| *w.c = $C::new()),
            ("default", |w| *w.c = Default::default()),
            ("unit", |w| *w.c = $C::unit($A::mk(w.v))),
            ("pair", |w| *w.c = $C::pair($A::mk(w.v), $A::mk(w.v + 1))),
            ("push_back", |w| w.c.push_back($A::mk(w.v))),
            ("push_front", |w| w.c.push_front($A::mk(w.v))),
            ("push_back, more", |w| for i in 0..w.n { if !w.c.is_full() { w.c.push_back($A::mk(w.v + i as u32)) } }),
            ("push_front, more", |w| for i in 0..w.n { if !w.c.is_full() { w.c.push_front($A::mk(w.v + i as u32)) } }),
            ("pop_back", |w| { let _ = w.c.pop_back(); }),
            ("pop_front", |w| { let _ = w.c.pop_front(); }),
            ("drop_left", |w| w.c.drop_left(w.k)),
            ("drop_right", |w| w.c.drop_right(w.k)),
            ("split_off", |w| *w.o = w.c.split_off(w.k)),
            ("append", |w| w.c.append(w.o)),
            ("append to other", |w| w.o.append(w.c)),
            ("drain_from", |w| *w.c = $C::drain_from(w.o)),
            ("collect_from", |w| *w.c = $C::collect_from(&mut some($N + 9, w.v), w.n)),
            ("from_front", |w| *w.o = $C::from_front(w.c, w.k)),
            ("from_back", |w| *w.o = $C::from_back(w.c, w.k)),
            ("drain_from_front", |w| w.c.drain_from_front(w.o, w.n.min(w.o.len()))),
            ("drain_from_back", |w| w.c.drain_from_back(w.o, w.n.min(w.o.len()))),
            ("insert", |w| w.c.insert(w.k, $A::mk(w.v))),
            ("insert_ordered", |w| w.c.insert_ordered($A::mk(w.v))),
            ("insert_from", |w| w.c.insert_from(w.k, some(w.n, w.v))),
            ("insert_from, what fits", |w| w.c.insert_from(w.k, some(w.n.min($N - w.c.len()), w.v))),
            ("remove", |w| { w.c.remove(w.k); }),
            ("drain", |w| { walk(w.c.drain(), w.n); }),
            ("clear", |w| w.c.clear()),
            ("into_iter", |w| { walk(std::mem::take(w.c).into_iter(), w.n); }),
            ("iter", |w| { walk(w.c.iter(), w.n); }),
            ("iter_mut", |w| for a in w.c.iter_mut() { *a = $A::mk(w.v) }),
            ("clone", |w| *w.o = w.c.clone()),
            ("clone_from", |w| w.o.clone_from(w.c)),
            ("extend", |w| w.c.extend(some::<$A>(w.n, w.v))),
            ("extend, what fits", |w| w.c.extend(some::<$A>(w.n.min($N - w.c.len()), w.v))),
            ("from_iter", |w| *w.c = some::<$A>(w.n.min($N), w.v).collect()),
            ("swap", |w| std::mem::swap(w.c, w.o)),
            ("eq", |w| { let _ = w.c == w.o; }),
            ("cmp", |w| { let _ = (w.c.cmp(&w.o), w.c.partial_cmp(&w.o)); }),
            ("hash", |w| { hash(w.c); }),
            ("debug", |w| print(w.c)),
            ("index", |w| { let _ = w.c[w.k].clone(); }),
            ("index_mut", |w| w.c[w.k] = $A::mk(w.v)),
            ("get", |w| { let _ = (w.c.get(w.k).is_some(), w.c.get_mut(w.n).is_some()); }),
            ("set", |w| { w.c.set(w.k, $A::mk(w.v)); }),
            ("first and last", |w| { let _ = (w.c.first(), w.c.last()); }),
            ("len", |w| { let _ = (w.c.len(), w.c.is_empty(), w.c.is_full()); }),
            ("binary_search", |w| { let a = $A::mk(w.v); let _ = w.c.binary_search(&a); }),
            ("contains", |w| { let a = $A::mk(w.v); let _ = w.c.contains(&a); }),
        ]
    };
}

type Calls<C> = Vec<(&'static str, fn(With<'_, C>))>;

fn chunk_calls<A: El, const N: usize>() -> Calls<Chunk<A, N>> {
    let mut v: Calls<Chunk<A, N>> = common!(Chunk, A, N);
    let more: Calls<Chunk<A, N>> = vec![
        ("sort_unstable", |w| w.c.sort_unstable()),
        ("rotate", |w| w.c.rotate_left(w.k)),
        ("swap elements", |w| w.c.swap(0, w.k)),
        ("slices", |w| {
            let _ = (w.c.as_slice().len(), w.c.as_mut_slice().len(), w.c.as_ref().len(), w.c.as_mut().len());
            let _ = &w.c[w.k..];
        }),
        ("eq slice", |w| {
            let _ = *w.c == w.o.as_slice();
        }),
        ("from InlineArray", |w| {
            let mut a = InlineArray::<A, [u64; 100]>::new();
            a.extend(some::<A>(w.n.min(N).min(InlineArray::<A, [u64; 100]>::CAPACITY), w.v));
            *w.c = if w.v % 2 == 0 { Chunk::from(a) } else { Chunk::from(&mut a) };
        }),
    ];
    v.extend(more);
    v
}

fn ring_calls<A: El, const N: usize>() -> Calls<RingBuffer<A, N>> {
    let mut v: Calls<RingBuffer<A, N>> = common!(RingBuffer, A, N);
    let more: Calls<RingBuffer<A, N>> = vec![
        ("sort_unstable", |w| w.c.sort_unstable()),
        ("sort_unstable_by", |w| w.c.sort_unstable_by(|a, b| b.cmp(a))),
        ("sort_unstable_by_key", |w| w.c.sort_unstable_by_key(|a| a.id() ^ 0x55)),
        ("swap elements", |w| w.c.swap(0, w.k)),
        ("map_pair", |w| w.c.map_pair(0, w.k, |a, b| std::mem::swap(a, b))),
        ("slice", |w| {
            let s = w.c.slice(w.k..);
            walk(s.iter(), w.n);
            let a = A::mk(w.v);
            let _ = (s.contains(&a), s.binary_search(&a), hash(&s), s.first(), s.last(), s.get(w.n));
            print(&s);
            let t = s.clone().slice(..s.len() / 2);
            let _ = (s == t, s.cmp(&t), t.partial_cmp(&s));
            let (x, y) = s.split_at(w.n);
            let _ = (x == *w.o, y == *w.o);
        }),
        ("to_owned", |w| *w.o = w.c.slice(w.k..).to_owned()),
        ("SliceMut::to_owned", |w| *w.o = w.c.slice_mut(..w.k).to_owned()),
        ("slice_mut", |w| {
            let mut s = w.c.slice_mut(w.k..);
            for a in s.iter_mut() {
                *a = A::mk(w.v);
            }
            s.sort_unstable();
            print(&s);
            hash(&s);
            let (mut x, mut y) = s.split_at(w.n);
            x.sort_unstable_by(|a, b| b.cmp(a));
            if !y.is_empty() {
                let _ = y.set(0, A::mk(w.v));
            }
            let _ = (x == y, x.cmp(&y));
            let _ = x.unmut().len();
        }),
    ];
    v.extend(more);
    v
}

fn seq<A: El, C: Seen + Default>(run: &mut Run, kind: &str, elem: &str, cap: usize, calls: &Calls<C>, len: fn(&C) -> usize, parts: &[(usize, usize)], n: u64, ops: usize) {
    let name = format!("{}<{},{}>", kind, elem, cap);
    // An array of nothings has no end.
    let cap = cap.min(1000);
    cases(run, name.clone(), n, |t| {
        small::<C>(t.run, &name, parts);
        let mut c = Place::new(C::default());
        let mut o = Place::new(C::default());
        let mut v = 0;
        for _ in 0..ops {
            let (l, m) = (len(c.get()), len(o.get()));
            let k = if t.rng.chance(1, 4) { [0, l, l.saturating_sub(1)][t.rng.below(3)] } else { t.rng.below(l + 1) };
            let n = if t.rng.chance(1, 4) { [0, cap.saturating_sub(l), cap, m][t.rng.below(4)] } else { t.rng.below(cap + 2) };
            let (what, f) = t.pick(calls, &[l.min(9), m.min(9), k.min(9)]);
            v += 1 + t.rng.below(200) as u32;
            {
                let w = With { c: c.get(), o: o.get(), k, n, v };
                quiet(t.run, what, || f(w));
            }
            if t.rng.chance(1, 3) {
                moved(t.run, &mut c, size_of::<A>());
                moved(t.run, &mut o, size_of::<A>());
            }
        }
        let (a, b) = (c.take(), o.take());
        quiet(t.run, "drop", || {
            drop(a);
            drop(b);
        });
    });
}

// ---------------------------------------------------------------- InlineArray

fn inline_calls<A: El, T: 'static>() -> Calls<InlineArray<A, T>> {
    vec![
        ("new", |w| *w.c = InlineArray::new()),
        ("default", |w| *w.c = Default::default()),
        ("push", |w| w.c.push(A::mk(w.v))),
        ("push, more", |w| {
            for i in 0..w.n {
                if !w.c.is_full() {
                    w.c.push(A::mk(w.v + i as u32))
                }
            }
        }),
        ("pop", |w| {
            w.c.pop();
        }),
        ("insert", |w| w.c.insert(w.k, A::mk(w.v))),
        ("remove", |w| {
            w.c.remove(w.k);
        }),
        ("split_off", |w| *w.o = w.c.split_off(w.k)),
        ("drain", |w| {
            walk(w.c.drain(), w.n);
        }),
        ("clear", |w| w.c.clear()),
        ("into_iter", |w| {
            walk(std::mem::take(w.c).into_iter(), w.n);
        }),
        ("iter", |w| {
            walk(w.c.iter(), w.n);
        }),
        ("iter_mut", |w| {
            for a in w.c.iter_mut() {
                *a = A::mk(w.v)
            }
        }),
        ("clone", |w| *w.o = w.c.clone()),
        ("clone_from", |w| w.o.clone_from(w.c)),
        ("extend", |w| w.c.extend(some::<A>(w.n, w.v))),
        ("extend, what fits", |w| w.c.extend(some::<A>(w.n.min(InlineArray::<A, T>::CAPACITY - w.c.len()), w.v))),
        ("from_iter", |w| *w.c = some::<A>(w.n.min(InlineArray::<A, T>::CAPACITY), w.v).collect()),
        ("swap", |w| std::mem::swap(w.c, w.o)),
        ("eq", |w| {
            let _ = *w.c == &w.o[..];
        }),
        ("cmp", |w| {
            let _ = (w.c.cmp(&w.o), w.c.partial_cmp(&w.o));
        }),
        ("hash", |w| {
            hash(w.c);
        }),
        ("debug", |w| print(w.c)),
        ("index", |w| {
            let _ = w.c[w.k].clone();
        }),
        ("index_mut", |w| w.c[w.k] = A::mk(w.v)),
        ("sort_unstable", |w| w.c.sort_unstable()),
        ("slices", |w| {
            let _ = (w.c.as_ref().len(), w.c.as_mut().len(), w.c.len(), w.c.is_empty(), w.c.is_full());
        }),
    ]
}

// ---------------------------------------------------------------- SparseChunk

macro_rules! sparse {
    ($run:ident, $n:ident, $ops:ident, $($e:ty: $($c:expr),*;)*) => {$($({
        type C = SparseChunk<$e, $c>;
        impl Seen for Own<$e, $c> {
            fn seen(&self) -> Vec<(usize, u32, usize)> {
                self.0.entries().map(|(i, a)| (i, a.id(), a as *const $e as usize)).collect()
            }
        }
        type W = Own<$e, $c>;
        let mk = |v: u32| <$e as El>::mk(v);
        let _ = mk;
        let calls: Calls<W> = vec![
            ("new", |w| w.c.0 = C::new()),
            ("default", |w| w.c.0 = Default::default()),
            ("unit", |w| w.c.0 = C::unit(w.k % $c, El::mk(w.v))),
            ("pair", |w| w.c.0 = C::pair(w.k % $c, El::mk(w.v), w.n % $c, El::mk(w.v + 1))),
            ("insert", |w| { w.c.0.insert(w.k, El::mk(w.v)); }),
            ("insert, more", |w| for i in 0..w.n { w.c.0.insert((w.k + i * 3) % $c, El::mk(w.v + i as u32)); }),
            ("remove", |w| { w.c.0.remove(w.k); }),
            ("pop", |w| { w.c.0.pop(); }),
            ("get", |w| { let _ = (w.c.0.get(w.k).is_some(), w.c.0.get_mut(w.n).is_some()); }),
            ("index", |w| { let _ = w.c.0[w.k].clone(); }),
            ("index_mut", |w| w.c.0[w.k] = El::mk(w.v)),
            ("len", |w| { let _ = (w.c.0.len(), w.c.0.is_empty(), w.c.0.is_full(), w.c.0.first_index()); }),
            ("indices", |w| { let _ = w.c.0.indices().take(w.n).count(); }),
            ("iter", |w| { let _ = w.c.0.iter().take(w.n).count(); }),
            ("iter_mut", |w| for a in w.c.0.iter_mut() { *a = El::mk(w.v) }),
            ("entries", |w| { let _ = w.c.0.entries().take(w.n).count(); }),
            ("option_iter", |w| { let _ = w.c.0.option_iter().take(w.n).count(); }),
            ("option_iter_mut", |w| { let _ = w.c.0.option_iter_mut().take(w.n).count(); }),
            ("drain", |w| { let _ = std::mem::take(&mut w.c.0).drain().take(w.n).count(); }),
            ("option_drain", |w| { let _ = std::mem::take(&mut w.c.0).option_drain().take(w.n).count(); }),
            ("into_iter", |w| { let _ = std::mem::take(&mut w.c.0).into_iter().take(w.n).count(); }),
            ("from_iter", |w| w.c.0 = (0..$c).map(|i| if (i ^ w.k) % 3 == 0 { Some(El::mk(w.v)) } else { None }).collect()),
            ("clone", |w| w.o.0 = w.c.0.clone()),
            ("clone_from", |w| w.o.0.clone_from(&w.c.0)),
            ("swap", |w| std::mem::swap(&mut w.c.0, &mut w.o.0)),
            ("eq", |w| { let _ = w.c.0 == w.o.0; }),
            ("debug", |w| print(&w.c.0)),
        ];
        #[cfg(feature = "std")]
        let calls = {
            let more: Calls<W> = vec![
                ("eq BTreeMap", |w| { let _ = w.c.0 == w.o.1; }),
                ("eq HashMap", |w| { let _ = w.c.0 == w.o.2; }),
            ];
            calls.into_iter().chain(more).collect::<Calls<W>>()
        };
        let bits = (size_of::<bitmaps::Bitmap<$c>>(), align_of::<bitmaps::Bitmap<$c>>());
        let name = format!("SparseChunk<{},{}>", stringify!($e), $c);
        cases($run, name.clone(), $n, |t| {
            small::<C>(t.run, &name, &[bits, (size_of::<[$e; $c]>(), align_of::<$e>())]);
            let mut c = Place::new(W::default());
            let mut o = Place::new(W::default());
            o.get().1 = (0..$c.min(5)).map(|i| (i, El::mk(i as u32))).collect();
            o.get().2 = (0..$c.min(5)).map(|i| (i, El::mk(i as u32))).collect();
            let mut v = 0;
            for _ in 0..$ops {
                let l = c.get().0.len();
                let (k, n) = (t.rng.below($c), t.rng.below($c + 2));
                let (what, f) = t.pick(&calls, &[l.min(9), k.min(9)]);
                v += 1 + t.rng.below(200) as u32;
                {
                    let w = With { c: c.get(), o: o.get(), k, n, v };
                    quiet(t.run, what, || f(w));
                }
                if t.rng.chance(1, 3) {
                    moved(t.run, &mut c, size_of::<$e>());
                    moved(t.run, &mut o, size_of::<$e>());
                }
            }
            let (a, b) = (c.take().0, o.take().0);
            quiet(t.run, "drop", || {
                drop(a);
                drop(b);
            });
        });
    })*)*};
}

/// A sparse chunk, with maps to compare it with.
struct Own<A, const N: usize>(SparseChunk<A, N>, BTreeMap<usize, A>, HashMap<usize, A>)
where
    bitmaps::BitsImpl<N>: bitmaps::Bits;
impl<A, const N: usize> Default for Own<A, N>
where
    bitmaps::BitsImpl<N>: bitmaps::Bits,
{
    fn default() -> Self {
        Own(SparseChunk::new(), BTreeMap::new(), HashMap::new())
    }
}

// ---------------------------------------------------------------- bytes

#[cfg(feature = "std")]
fn bytes<C>(run: &mut Run, name: &str, cap: usize, n: u64, ops: usize)
where
    C: Default + std::io::Read + std::io::Write + Seen,
{
    use std::io::Read;
    type F<C> = fn(&mut C, &mut [u8]);
    let calls: Vec<(&str, F<C>)> = vec![
        ("write", |c, b| {
            let _ = c.write(b);
        }),
        ("write_all", |c, b| {
            let _ = c.write_all(b);
        }),
        ("write_vectored", |c, b| {
            let (x, y) = b.split_at(b.len() / 3);
            let _ = c.write_vectored(&[std::io::IoSlice::new(x), std::io::IoSlice::new(y)]);
        }),
        ("write!", |c, b| {
            let _ = write!(c, "{}", b.len());
        }),
        ("flush", |c, _| {
            let _ = c.flush();
        }),
        ("read", |c, b| {
            let _ = c.read(b);
        }),
        ("read_exact", |c, b| {
            let _ = c.read_exact(b);
        }),
        ("by_ref and bytes", |c, b| {
            let _ = Read::by_ref(c).bytes().take(b.len()).count();
        }),
        ("chain and take", |c, b| {
            let s: &[u8] = &[1, 2, 3];
            let _ = Read::by_ref(c).take(9).chain(s).read(b);
        }),
    ];
    cases(run, name.to_string(), n, |t| {
        let mut c = Place::new(C::default());
        for _ in 0..ops {
            let l = c.get().seen().len();
            let mut b = vec![7; t.rng.below(cap + 3)];
            let (what, f) = t.pick(&calls, &[l.min(9), b.len().min(9)]);
            {
                let c = c.get();
                quiet(t.run, what, || f(c, &mut b));
            }
            if t.rng.chance(1, 3) {
                moved(t.run, &mut c, 1);
            }
        }
        let c = c.take();
        quiet(t.run, "drop", || drop(c));
    });
}

fn main() {
    let mut run = Run::from_args();
    let n = run.num("n", 50);
    let ops = run.num("ops", 60) as usize;
    let r = &mut run;
    macro_rules! seqs {
        ($($e:ty: $($c:expr),*;)*) => {$($(
            seq::<$e, _>(r, "Chunk", stringify!($e), $c, &chunk_calls::<$e, $c>(), |c| c.len(), &[WORDS, (size_of::<[$e; $c]>(), align_of::<$e>())], n, ops);
            seq::<$e, _>(r, "RingBuffer", stringify!($e), $c, &ring_calls::<$e, $c>(), |c| c.len(), &[WORDS, (size_of::<[$e; $c]>(), align_of::<$e>())], n, ops);
        )*)*};
    }
    seqs! {
        u8: 1, 3, 64, 300;
        u32: 0, 1, 2, 5, 33, 64, 128;
        (): 0, 1, 7, 64, 256;
        Drops: 1, 4, 64, 100;
        Wide: 1, 6, 40;
        Long: 1, 5, 70;
        (u8, u16): 3, 64;
    }
    macro_rules! inlines {
        ($($e:ty: $($h:ty),*;)*) => {$($(
            seq::<$e, _>(r, "InlineArray", concat!(stringify!($e), ",", stringify!($h)), InlineArray::<$e, $h>::CAPACITY, &inline_calls::<$e, $h>(), |c| c.len(), &[(size_of::<$h>(), align_of::<$h>().max(align_of::<usize>()))], n, ops);
        )*)*};
    }
    inlines! {
        u8: [u64; 1], [u64; 2], [u8; 30], [usize; 40];
        u32: [u64; 2], [u32; 9], [u64; 90];
        (): [u64; 1], [u64; 3];
        Drops: [u64; 4], [u64; 50];
        (u8, u16): [u64; 5], [u16; 50];
    }
    sparse! { r, n, ops,
        u8: 1, 8, 64, 300;
        u32: 2, 33, 128, 1000;
        (): 1, 64, 257;
        Drops: 5, 64;
        Wide: 3, 65;
        Long: 2, 40;
    }
    #[cfg(feature = "std")]
    {
        bytes::<Chunk<u8, 20>>(r, "Chunk<u8,20> bytes", 20, n, ops);
        bytes::<Chunk<u8, 300>>(r, "Chunk<u8,300> bytes", 300, n, ops);
        bytes::<RingBuffer<u8, 20>>(r, "RingBuffer<u8,20> bytes", 20, n, ops);
        bytes::<RingBuffer<u8, 300>>(r, "RingBuffer<u8,300> bytes", 300, n, ops);
    }
    run.finish()
}
