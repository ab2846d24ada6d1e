//! Containers shared with and handed to other threads, under a race detector.
//!
//! The threads are made with pthread_create and meet at atomic counters, both
//! of which ThreadSanitizer knows even where the standard library itself isn't
//! instrumented.

use std::cell::{Cell, UnsafeCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

use sized_chunks::ring_buffer::{Array, ArrayMut, HasLength, Slice, SliceMut};
use sized_chunks::{Chunk, InlineArray, RingBuffer, SparseChunk};
use vh::core::*;

// ---------------------------------------------------------------- threads

#[cfg(miri)]
unsafe fn pthread_create(t: *mut usize, _: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32 {
    let a = arg as usize;
    let h = Box::new(std::thread::spawn(move || drop(f(a as *mut u8))));
    *t = Box::into_raw(h) as usize;
    0
}
#[cfg(miri)]
unsafe fn pthread_join(t: usize, _: *mut *mut u8) -> i32 {
    let _ = Box::from_raw(t as *mut std::thread::JoinHandle<()>).join();
    0
}

#[cfg(not(miri))]
extern "C" {
    fn pthread_create(t: *mut usize, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32;
    fn pthread_join(t: usize, ret: *mut *mut u8) -> i32;
}

const CREW: usize = 3;

/// What the threads do next, and how far they are.
struct Stage {
    round: AtomicUsize,
    done: AtomicUsize,
    panicked: AtomicBool,
    quit: AtomicBool,
    task: UnsafeCell<Option<*const (dyn Fn(usize) + 'static)>>,
}
unsafe impl Sync for Stage {}
static STAGE: Stage = Stage {
    round: AtomicUsize::new(0),
    done: AtomicUsize::new(0),
    panicked: AtomicBool::new(false),
    quit: AtomicBool::new(false),
    task: UnsafeCell::new(None),
};

fn wait(mut until: impl FnMut() -> bool) {
    let mut n = 0u32;
    while !until() {
        n += 1;
        if n % 64 == 0 || cfg!(miri) {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

extern "C" fn member(arg: *mut u8) -> *mut u8 {
    let me = arg as usize;
    let mut round = 0;
    loop {
        wait(|| STAGE.round.load(Ordering::SeqCst) != round);
        round += 1;
        if STAGE.quit.load(Ordering::SeqCst) {
            return arg;
        }
        let task = unsafe { &*(*STAGE.task.get()).unwrap() };
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| task(me))).is_err() {
            STAGE.panicked.store(true, Ordering::SeqCst);
        }
        STAGE.done.fetch_add(1, Ordering::SeqCst);
    }
}

struct Crew([usize; CREW]);
impl Crew {
    fn new() -> Crew {
        let mut t = [0; CREW];
        for (i, t) in t.iter_mut().enumerate() {
            if unsafe { pthread_create(t, std::ptr::null(), member, i as *mut u8) } != 0 {
                die("no threads");
            }
        }
        Crew(t)
    }
    /// All threads run `f`, at once. True if none panicked.
    fn all(&self, f: impl Fn(usize)) -> bool {
        let f: &dyn Fn(usize) = &f;
        unsafe { *STAGE.task.get() = Some(std::mem::transmute::<*const (dyn Fn(usize) + '_), *const (dyn Fn(usize) + 'static)>(f)) };
        STAGE.panicked.store(false, Ordering::SeqCst);
        STAGE.done.store(0, Ordering::SeqCst);
        // Their panics are caught; see Run::from_args.
        let mut ok = true;
        let _ = call(|| {
            STAGE.round.fetch_add(1, Ordering::SeqCst);
            wait(|| STAGE.done.load(Ordering::SeqCst) == CREW);
            ok = !STAGE.panicked.load(Ordering::SeqCst);
        });
        ok
    }
    /// Thread `who` runs `f`.
    fn one(&self, who: usize, f: impl Fn()) -> bool {
        self.all(|me| {
            if me == who {
                f()
            }
        })
    }
    fn quit(self) {
        STAGE.quit.store(true, Ordering::SeqCst);
        STAGE.round.fetch_add(1, Ordering::SeqCst);
        for t in self.0 {
            unsafe { pthread_join(t, std::ptr::null_mut()) };
        }
    }
}

/// For moving anything into another thread's closure: the detector judges.
struct Pass<T>(UnsafeCell<Option<T>>);
impl<T> Pass<T> {
    fn new(t: T) -> Self {
        Pass(UnsafeCell::new(Some(t)))
    }
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { (*self.0.get()).as_mut().unwrap() }
    }
    fn take(&self) -> T {
        unsafe { (*self.0.get()).take().unwrap() }
    }
}

// ---------------------------------------------------------------- elements

trait El: Clone + Ord + Hash + Debug + 'static {
    fn mk(v: u32) -> Self;
}
macro_rules! el {
    ($($t:ty, $v:ident => $mk:expr;)*) => {$(impl El for $t { fn mk($v: u32) -> Self { $mk } })*};
}
el! {
    u8, v => v as u8;
    u32, v => v;
    (), _v => ();
    Box<u32>, v => Box::new(v);
    [u64; 5], v => [v as u64; 5];
    (u16, u8), v => (v as u16, v as u8);
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn text<T: Debug>(t: T) -> u64 {
    hash(&format!("{:?}", t))
}

type Reads<C> = Vec<(&'static str, fn(&C, &C, usize) -> u64)>;
type Changes<C> = Vec<(&'static str, fn(&mut C, usize, u32))>;

/// A kind of container: what can be done to it through `&`, and through
/// `&mut`, and by several threads that hold parts of it.
struct Kind<C> {
    name: String,
    cap: usize,
    reads: Reads<C>,
    changes: Changes<C>,
    parts: fn(&mut C, &Crew, usize, u32) -> bool,
    seen: fn(&C) -> u64,
}

fn kind<C: Default + Clone + 'static>(run: &mut Run, crew: &Crew, k: &Kind<C>, n: u64) {
    for h in 0..n {
        if !run.begin() {
            continue;
        }
        let mut rng = Rng::new(mix(mix(run.seed, h), hash_str(&k.name)));
        run.log = format!("{}: ", k.name);
        let name = hash_str(&k.name);

        // The same container twice, one for the threads.
        let c = Pass::new(C::default());
        let o = Pass::new(C::default());
        let mut twin = C::default();
        let mut other = C::default();
        for _ in 0..rng.below(2 * k.cap.min(12) + 2) {
            let (what, f) = k.changes[rng.below(k.changes.len())];
            let (at, v) = (rng.below(k.cap + 1), rng.next() as u32 % 300);
            run.log.push_str(what);
            run.log.push(' ');
            let second = rng.chance(1, 3);
            let a = call(|| f(if second { &mut other } else { &mut twin }, at, v)).is_ok();
            // Each change is made by another thread: what one leaves, the next
            // finds.
            let who = rng.below(CREW);
            let b = crew.one(who, || f(if second { o.get() } else { c.get() }, at, v));
            run.ops += 1;
            run.count("changes_by_other_threads", 1);
            run.distinct(mix(mix(name, hash_str(what)), mix(at.min(9) as u64, second as u64)));
            if a != b {
                run.violation(kind::THREAD, &format!("{}: {} {} in another thread", k.name, what, if a { "panicked" } else { "didn't panic" }));
            }
        }
        if (k.seen)(c.get()) != (k.seen)(&twin) {
            run.violation(kind::THREAD, &format!("{}: other threads made something else of it", k.name));
        }

        // Everything that `&` allows, by all threads at once.
        let results: Vec<Vec<AtomicUsize>> = (0..CREW).map(|_| k.reads.iter().map(|_| AtomicUsize::new(0)).collect()).collect();
        let at = rng.below(k.cap + 1);
        let turn: Vec<usize> = (0..CREW).map(|_| rng.below(k.reads.len())).collect();
        let all = crew.all(|me| {
            for i in 0..k.reads.len() {
                let i = (i + turn[me]) % k.reads.len();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (k.reads[i].1)(c.get(), o.get(), at)));
                results[me][i].store(r.unwrap_or(77) as usize, Ordering::Relaxed);
            }
        });
        run.count("concurrent_reads", (CREW * k.reads.len()) as u64);
        run.ops += (CREW * k.reads.len()) as u64;
        if !all {
            die("a reading thread panicked");
        }
        for (i, (what, f)) in k.reads.iter().enumerate() {
            let want = call(|| f(&twin, &other, at)).ok().unwrap_or(77) as usize;
            run.distinct(mix(mix(name, hash_str(what)), mix(at.min(9) as u64, want as u64)));
            for r in &results {
                let got = r[i].load(Ordering::Relaxed);
                if got != want {
                    run.violation(kind::THREAD, &format!("{}: {} gave something else to a thread among others", k.name, what));
                }
            }
        }
        if (k.seen)(c.get()) != (k.seen)(&twin) {
            run.violation(kind::THREAD, &format!("{}: reading changed it", k.name));
        }

        // Its parts, given to all threads at once.
        let (at, v) = (rng.below(k.cap + 1), rng.next() as u32 % 200);
        let single = (k.parts)(c.get(), crew, at, v);
        run.count("parted", single as u64);
        if single && call(|| (k.parts)(&mut twin, &Crew([0; CREW]), at, v)).is_ok() && (k.seen)(c.get()) != (k.seen)(&twin) {
            run.violation(kind::THREAD, &format!("{}: writing its parts in threads gave something else", k.name));
        }

        // Dropped by another thread.
        let who = rng.below(CREW);
        if !crew.one(who, || {
            drop(c.take());
            drop(o.take());
        }) {
            run.violation(kind::THREAD, &format!("{}: dropping it in another thread panicked", k.name));
        }
        run.end();
    }
}

/// Give each thread its share of `parts`; or, for a crew of nobody, do it here.
fn share<T>(crew: &Crew, parts: Vec<T>, f: impl Fn(usize, T)) {
    let parts: Vec<Pass<T>> = parts.into_iter().map(Pass::new).collect();
    if crew.0 == [0; CREW] {
        for (i, p) in parts.iter().enumerate() {
            f(i, p.take());
        }
    } else {
        crew.all(|me| {
            for (i, p) in parts.iter().enumerate() {
                if i % CREW == me {
                    f(i, p.take());
                }
            }
        });
    }
}
fn share_muts<'a, A: El>(crew: &Crew, v: u32, parts: impl Iterator<Item = &'a mut A>) {
    share(crew, parts.collect(), |i, a: &mut A| {
        *a = A::mk(v + i as u32);
        *a = A::mk(v + 2 * i as u32);
    });
}

fn some<A: El>(n: usize, v: u32) -> impl ExactSizeIterator<Item = A> + Clone {
    (0..n).map(move |i| A::mk(v.wrapping_add(i as u32)))
}

macro_rules! reads {
    ($A:ident) => {
        vec![
            ("len", |c, _, _| c.len() as u64 * 4 + c.is_empty() as u64 * 2 + c.is_full() as u64),
            ("iter", |c, _, _| text(c.iter().collect::<Vec<_>>())),
            ("iter from behind", |c, _, _| text(c.iter().rev().collect::<Vec<_>>())),
            ("into_iter", |c, _, _| text(c.into_iter().map(|a| hash(a)).collect::<Vec<_>>())),
            ("clone", |c, _, _| text(c.clone())),
            ("clone_from", |c, o, _| {
                let mut x = o.clone();
                x.clone_from(c);
                text(x)
            }),
            ("cmp", |c, o, _| text((c.cmp(o), c.partial_cmp(o)))),
            ("hash", |c, _, _| hash(c)),
            ("debug", |c, _, _| text(c)),
            ("index", |c, _, k| text(&c[k])),
            ("get", |c, _, k| text(c.get(k))),
            ("first and last", |c, _, _| text((c.first(), c.last()))),
            ("contains", |c, _, k| text(c.contains(&$A::mk(k as u32)))),
            ("binary_search", |c, _, k| text(c.binary_search(&$A::mk(k as u32)))),
        ]
    };
}
macro_rules! changes {
    ($C:ident, $A:ident, $cap:expr) => {
        vec![
            ("push_back", |c, _, v| c.push_back($A::mk(v))),
            ("push_front", |c, _, v| c.push_front($A::mk(v))),
            ("pop_back", |c, _, _| drop(c.pop_back())),
            ("pop_front", |c, _, _| drop(c.pop_front())),
            ("insert", |c, k, v| c.insert(k, $A::mk(v))),
            ("remove", |c, k, _| drop(c.remove(k))),
            ("extend", |c, k, v| c.extend(some::<$A>(k.min($cap - c.len()), v))),
            ("insert_from", |c, k, v| c.insert_from(k.min(c.len()), some(k.min($cap - c.len()), v))),
            ("split_off", |c, k, _| drop(c.split_off(k))),
            ("append", |c, k, v| c.append(&mut some::<$A>(k.min($cap - c.len()), v).collect())),
            ("drain", |c, k, _| drop(c.drain().take(k).count())),
            ("clear", |c, _, _| c.clear()),
            ("insert_ordered", |c, _, v| c.insert_ordered($A::mk(v))),
            ("iter_mut", |c, _, v| for a in c.iter_mut() { *a = $A::mk(v) }),
            ("drop_left", |c, k, _| c.drop_left(k)),
            ("drop_right", |c, k, _| c.drop_right(k)),
            ("into_iter", |c, k, _| { let x = std::mem::take(c); *c = x.into_iter().take(k).collect(); }),
        ]
    };
}

fn chunk<A: El, const N: usize>(run: &mut Run, crew: &Crew, elem: &str, n: u64) {
    let mut reads: Reads<Chunk<A, N>> = reads!(A);
    let more: Reads<Chunk<A, N>> = vec![
        ("eq", |c, o, _| (c == o) as u64),
        ("slices", |c, _, k| text((c.as_slice(), c.as_ref(), &c[..], &c[k..]))),
        ("eq slice", |c, o, _| (*c == o.as_slice()) as u64),
    ];
    reads.extend(more);
    let k = Kind {
        name: format!("Chunk<{},{}>", elem, N),
        cap: N,
        reads,
        changes: changes!(Chunk, A, N),
        parts: |c, crew, k, v| {
            if k % 2 == 0 {
                share_muts(crew, v, c.iter_mut());
            } else {
                let k = k.min(c.len());
                let (x, y) = c.split_at_mut(k);
                share(crew, vec![x, y], |_, s: &mut [A]| s.sort_unstable());
            }
            true
        },
        seen: |c| text(c),
    };
    kind(run, crew, &k, n);
}

fn ring<A: El, const N: usize>(run: &mut Run, crew: &Crew, elem: &str, n: u64) {
    let mut reads: Reads<RingBuffer<A, N>> = reads!(A);
    let more: Reads<RingBuffer<A, N>> = vec![
        ("eq", |c, o, _| (c == o) as u64),
        ("slice", |c, o, k| {
            let s = c.slice(..);
            let t = s.clone().slice(k..);
            let u = hash(&s) ^ text((&s, &t, s == t, s.cmp(&t), s == *o, t.first(), t.last(), t.contains(&A::mk(k as u32))));
            let (x, y) = s.split_at(k);
            u ^ text((x.iter().rev().count(), y.to_owned()))
        }),
    ];
    reads.extend(more);
    let k = Kind {
        name: format!("RingBuffer<{},{}>", elem, N),
        cap: N,
        reads,
        changes: {
            let mut v: Changes<RingBuffer<A, N>> = changes!(RingBuffer, A, N);
            v.push(("sort", |c, _, _| c.sort_unstable()));
            v
        },
        parts: |c, crew, k, v| {
            // Halves aren't for Miri: a known finding of C12.
            match k % if cfg!(miri) { 2 } else { 3 } {
                0 => share_muts(crew, v, c.iter_mut()),
                1 => share_muts(crew, v, c.slice_mut(k.min(c.len())..).iter_mut()),
                _ => {
                    let k = k.min(c.len());
                    let (x, y) = c.slice_mut(..).split_at(k);
                    let (x, z) = x.split_at(k / 2);
                    share(crew, vec![x, y, z], |i, mut s: SliceMut<'_, A, N>| {
                        for a in s.iter_mut() {
                            *a = A::mk(v + i as u32);
                        }
                        if s.len() > 1 {
                            s[0] = A::mk(v + 7);
                            s.swap(0, 1);
                            s.sort_unstable();
                        }
                    });
                }
            }
            true
        },
        seen: |c| text(c),
    };
    kind(run, crew, &k, n);
}

fn inline<A: El, T: 'static>(run: &mut Run, crew: &Crew, elem: &str, n: u64) {
    let mut reads: Reads<InlineArray<A, T>> = reads!(A);
    let more: Reads<InlineArray<A, T>> = vec![("slices", |c, o, k| text((c.as_ref(), &c[..], &c[k..], *c == &o[..])))];
    reads.extend(more);
    let k = Kind {
        name: format!("InlineArray<{}>", elem),
        cap: InlineArray::<A, T>::CAPACITY.min(40),
        reads,
        changes: vec![
            ("push", |c, _, v| c.push(A::mk(v))),
            ("pop", |c, _, _| drop(c.pop())),
            ("insert", |c, k, v| c.insert(k, A::mk(v))),
            ("remove", |c, k, _| drop(c.remove(k))),
            ("extend", |c, k, v| c.extend(some::<A>(k.min(InlineArray::<A, T>::CAPACITY - c.len()), v))),
            ("split_off", |c, k, _| drop(c.split_off(k))),
            ("drain", |c, k, _| drop(c.drain().take(k).count())),
            ("clear", |c, _, _| c.clear()),
            ("iter_mut", |c, _, v| {
                for a in c.iter_mut() {
                    *a = A::mk(v)
                }
            }),
            ("into_iter", |c, k, _| {
                let x = std::mem::take(c);
                *c = x.into_iter().take(k).collect();
            }),
        ],
        parts: |c, crew, k, v| {
            if k % 2 == 0 {
                share_muts(crew, v, c.iter_mut());
            } else {
                let k = k.min(c.len());
                let (x, y) = c.split_at_mut(k);
                share(crew, vec![x, y], |_, s: &mut [A]| s.sort_unstable());
            }
            true
        },
        seen: |c| text(c),
    };
    kind(run, crew, &k, n);
}

macro_rules! sparse {
    ($run:ident, $crew:ident, $n:expr, $($e:ty: $($c:expr),*;)*) => {$($({
        type C = SparseChunk<$e, $c>;
        let mk = |v: u32| <$e as El>::mk(v);
        let _ = mk;
        let reads: Reads<C> = vec![
            ("len", |c, _, _| c.len() as u64 * 4 + c.is_empty() as u64 * 2 + c.is_full() as u64),
            ("iter", |c, _, _| text(c.iter().collect::<Vec<_>>())),
            ("entries", |c, _, _| text(c.entries().collect::<Vec<_>>())),
            ("indices", |c, _, _| text((c.indices().collect::<Vec<_>>(), c.first_index()))),
            ("option_iter", |c, _, _| text(c.option_iter().collect::<Vec<_>>())),
            ("clone", |c, _, _| text(c.clone())),
            ("eq", |c, o, _| (c == o) as u64),
            ("eq BTreeMap", |c, o, _| (*c == o.entries().map(|(i, a)| (i, a.clone())).collect::<BTreeMap<usize, $e>>()) as u64),
            ("debug", |c, _, _| text(c)),
            ("get", |c, _, k| text(c.get(k))),
            ("index", |c, _, k| text(&c[k])),
        ];
        let changes: Changes<C> = vec![
            ("insert", |c, k, v| drop(c.insert(k, El::mk(v)))),
            ("insert another", |c, k, v| drop(c.insert((k * 7 + 3) % $c, El::mk(v)))),
            ("insert a third", |c, k, v| drop(c.insert((k * 3 + 1) % $c, El::mk(v)))),
            ("remove", |c, k, _| drop(c.remove(k))),
            ("pop", |c, _, _| drop(c.pop())),
            ("iter_mut", |c, _, v| for a in c.iter_mut() { *a = El::mk(v) }),
            ("into_iter", |c, k, _| { let x = std::mem::take(c); *c = x.into_iter().take(k).map(Some).collect(); }),
            ("option_drain", |c, k, _| { let x = std::mem::take(c); *c = x.option_drain().take(k).collect(); }),
        ];
        let k = Kind {
            name: format!("SparseChunk<{},{}>", stringify!($e), $c),
            cap: $c,
            reads,
            changes,
            parts: |c, crew, k, v| {
                if k % 2 == 0 {
                    share_muts(crew, v, c.iter_mut());
                } else {
                    share_muts(crew, v, c.option_iter_mut().flatten());
                }
                true
            },
            seen: |c| text(c),
        };
        kind($run, $crew, &k, $n);
    })*)*};
}

// ---------------------------------------------------------------- auto traits

/// Elements (and hosts) that may go to other threads; and may not; and may go,
/// but not be shared.
type NotSend = Rc<u8>;
type NotSync = Cell<u8>;

macro_rules! has {
    ($t:ty: $($tr:tt)*) => {{
        trait No {
            const HAS: bool = false;
        }
        impl<T: ?Sized> No for T {}
        struct Yes<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $($tr)*> Yes<T> {
            const HAS: bool = true;
        }
        <Yes<$t>>::HAS
    }};
}

fn traits(run: &mut Run) {
    let mut rows: Vec<(&str, bool, bool, bool, bool)> = Vec::new();
    // (what, Send, should be, Sync, should be)
    macro_rules! row {
        ($($t:ty => $send:expr, $sync:expr;)*) => {$(
            rows.push((stringify!($t), has!($t: Send), $send, has!($t: Sync), $sync));
        )*};
    }
    row! {
        Chunk<u8, 4> => true, true;
        Chunk<Box<u32>, 4> => true, true;
        Chunk<NotSync, 4> => true, false;
        Chunk<NotSend, 4> => false, false;
        RingBuffer<u8, 4> => true, true;
        RingBuffer<Box<u32>, 4> => true, true;
        RingBuffer<NotSync, 4> => true, false;
        RingBuffer<NotSend, 4> => false, false;
        SparseChunk<u8, 4> => true, true;
        SparseChunk<Box<u32>, 4> => true, true;
        SparseChunk<NotSync, 4> => true, false;
        SparseChunk<NotSend, 4> => false, false;
        InlineArray<u8, [u64; 4]> => true, true;
        InlineArray<Box<u32>, [u64; 4]> => true, true;
        InlineArray<NotSync, [u64; 4]> => true, false;
        InlineArray<NotSend, [u64; 4]> => false, false;
        Slice<'static, u8, 4> => true, true;
        Slice<'static, NotSync, 4> => false, false;
        Slice<'static, NotSend, 4> => false, false;
        SliceMut<'static, u8, 4> => true, true;
        SliceMut<'static, NotSync, 4> => true, false;
        SliceMut<'static, NotSend, 4> => false, false;
    }
    if !run.begin() {
        return;
    }
    for (what, send, send_due, sync, sync_due) in rows {
        run.ops += 2;
        run.distinct(hash_str(what));
        run.log = what.to_string();
        for (t, is, due) in [("Send", send, send_due), ("Sync", sync, sync_due)] {
            if is != due {
                run.violation(kind::THREAD, &format!("{} is {}{}", what, if is { "" } else { "not " }, t));
            }
        }
    }
    run.end();
}

fn main() {
    let mut run = Run::from_args();
    let n = run.num("n", 20);
    let r = &mut run;
    traits(r);
    let crew = Crew::new();
    let few = cfg!(miri);
    macro_rules! seqs {
        ($($e:ty: $($c:expr),*;)*) => {$($(
            if !few || $c < 10 {
                chunk::<$e, $c>(r, &crew, stringify!($e), n);
                ring::<$e, $c>(r, &crew, stringify!($e), n);
            }
        )*)*};
    }
    seqs! {
        u8: 3, 9, 64;
        u32: 1, 4, 33;
        (): 4, 20;
        Box<u32>: 4, 33;
        [u64; 5]: 6, 40;
        (u16, u8): 7, 64;
    }
    inline::<u8, [u64; 3]>(r, &crew, "u8,[u64;3]", n);
    inline::<u32, [u64; 12]>(r, &crew, "u32,[u64;12]", n);
    inline::<(), [u64; 1]>(r, &crew, "(),[u64;1]", n);
    inline::<Box<u32>, [u64; 6]>(r, &crew, "Box<u32>,[u64;6]", n);
    inline::<(u16, u8), [u64; 5]>(r, &crew, "(u16,u8),[u64;5]", n);
    let crew_ref = &crew;
    sparse! { r, crew_ref, n,
        u8: 4, 64, 130;
        u32: 1, 9;
        (): 5;
        Box<u32>: 4, 40;
        [u64; 5]: 3, 33;
    }
    crew.quit();
    run.finish()
}
