//! Containers in real pools, in slots used before.

use vh::core::*;

#[cfg(feature = "extra")]
mod pools {
    use super::*;
    #[allow(unused_imports)]
    use sized_chunks::ring_buffer::{Array, HasLength};
    use refpool::{Pool, PoolBox, PoolClone, PoolDefault, PoolRef};
    use sized_chunks::{Chunk, RingBuffer, SparseChunk};
    use std::fmt::Debug;

    type Model = Vec<(usize, u32)>;

    trait P: PoolDefault + PoolClone + Clone + Default + PartialEq + Debug + 'static {
        const NAME: &'static str;
        fn see(&self) -> Model;
        /// Put in or take out something, in both.
        fn mutate(&mut self, rng: &mut Rng, m: &mut Model);
    }
    fn seq_mutate(rng: &mut Rng, m: &mut Model, cap: usize) -> (bool, bool, u32) {
        let add = m.is_empty() || m.len() < cap && rng.chance(2, 3);
        let (front, v) = (rng.chance(1, 2), rng.below(1000) as u32);
        let mut vals: Vec<u32> = m.iter().map(|x| x.1).collect();
        if cap > 0 {
            match (add, front) {
                (true, true) => vals.insert(0, v),
                (true, false) => vals.push(v),
                (false, true) => drop(vals.remove(0)),
                (false, false) => drop(vals.pop()),
            }
        }
        *m = vals.into_iter().enumerate().collect();
        (add, front, v)
    }
    macro_rules! seq {
        ($c:ident, $name:expr) => {
            impl<const N: usize> P for $c<Tok, N> {
                const NAME: &'static str = $name;
                fn see(&self) -> Model {
                    if self.len() > N || self.is_empty() != (self.len() == 0) || self.is_full() != (self.len() == N) {
                        return vec![(usize::MAX, self.len() as u32)];
                    }
                    self.iter().map(|t| look(t).val).enumerate().collect()
                }
                fn mutate(&mut self, rng: &mut Rng, m: &mut Model) {
                    match seq_mutate(rng, m, N) {
                        _ if N == 0 => {}
                        (true, true, v) => self.push_front(Tok::make(v)),
                        (true, false, v) => self.push_back(Tok::make(v)),
                        (false, true, _) => drop(self.pop_front()),
                        (false, false, _) => drop(self.pop_back()),
                    }
                }
            }
        };
    }
    seq!(Chunk, "Chunk");
    seq!(RingBuffer, "RingBuffer");
    macro_rules! sparse {
        ($($n:expr),*) => {$(
            impl P for SparseChunk<Tok, $n> {
                const NAME: &'static str = "SparseChunk";
                fn see(&self) -> Model {
                    if self.len() > $n || self.is_empty() != (self.len() == 0) || self.is_full() != (self.len() == $n) {
                        return vec![(usize::MAX, self.len() as u32)];
                    }
                    self.entries().map(|(i, t)| (i, look(t).val)).collect()
                }
                fn mutate(&mut self, rng: &mut Rng, m: &mut Model) {
                    let i = rng.below($n);
                    let v = rng.below(1000) as u32;
                    let at = m.iter().position(|x| x.0 == i);
                    if let Some(p) = at {
                        m.remove(p);
                    }
                    if at.is_some() && rng.chance(1, 2) {
                        self.remove(i);
                    } else {
                        self.insert(i, Tok::make(v));
                        m.push((i, v));
                        m.sort();
                    }
                }
            }
        )*};
    }
    sparse!(1, 5, 32, 64, 100, 200);

    enum H<C> {
        R(PoolRef<C>),
        B(PoolBox<C>),
    }
    impl<C: P> H<C> {
        fn c(&self) -> &C {
            match self {
                H::R(r) => r,
                H::B(b) => b,
            }
        }
    }

    fn history<C: P>(run: &mut Run, cap: usize, seed: u64, nops: usize) {
        let mut rng = Rng::new(seed);
        let name = format!("{}<tok,{}>", C::NAME, cap);
        let size = [0, 1, 2, 3, 8][rng.below(5)];
        let pool: Pool<C> = Pool::new(size);
        run.log = format!("{} in a pool of {}", name, size);
        // Handles, and the allocation each stands for.
        let mut hs: Vec<(H<C>, usize)> = Vec::new();
        let mut allocs: Vec<(Model, usize)> = Vec::new();
        let mut loose: Vec<(C, Model)> = Vec::new();
        for _ in 0..nops {
            let op = if hs.is_empty() { rng.below(4) } else if hs.len() > 6 { 9 } else { rng.below(13) };
            let i = if hs.is_empty() { 0 } else { rng.below(hs.len()) };
            let boxed = rng.chance(1, 4);
            run.ops += 1;
            run.log.push_str(&format!("\nop {} on {}{}", op, i, if boxed { " boxed" } else { "" }));
            run.distinct(mix(mix(hash_str(&name), op as u64), mix(size as u64, hs.get(i).map_or(0, |h| hash_str(&format!("{:?}", allocs[h.1].0))))));
            let clones = ledger().clones;
            let mut want_clones = 0;
            let mut msg = String::new();
            let pooled = pool.get_pool_size();
            if pooled > 0 && (op < 6) {
                run.count("recycled_slots", 1);
            }
            let r = call(|| {
                let mut add = |hs: &mut Vec<(H<C>, usize)>, h: H<C>, m: Model| {
                    allocs.push((m, 1));
                    hs.push((h, allocs.len() - 1));
                };
                match op {
                    0 => {
                        let h = if boxed { H::B(PoolBox::default(&pool)) } else { H::R(PoolRef::default(&pool)) };
                        add(&mut hs, h, vec![]);
                    }
                    1 | 2 => {
                        let mut c = C::default();
                        let mut m = vec![];
                        for _ in 0..rng.below(cap * 2 + 2) {
                            c.mutate(&mut rng, &mut m);
                        }
                        if op == 1 {
                            let h = if boxed { H::B(PoolBox::new(&pool, c)) } else { H::R(PoolRef::new(&pool, c)) };
                            add(&mut hs, h, m);
                        } else {
                            want_clones = m.len();
                            let h = if boxed { H::B(PoolBox::clone_from(&pool, &c)) } else { H::R(PoolRef::clone_from(&pool, &c)) };
                            if c.see() != m {
                                msg = "cloning into the pool changed the source".into();
                            }
                            loose.push((c, m.clone()));
                            add(&mut hs, h, m);
                        }
                    }
                    3 | 4 | 5 if !hs.is_empty() => {
                        let m = allocs[hs[i].1].0.clone();
                        want_clones = m.len();
                        let h = match &hs[i].0 {
                            H::R(r) if op == 3 => H::R(PoolRef::cloned(&pool, r)),
                            h if boxed => H::B(PoolBox::clone_from(&pool, h.c())),
                            h => H::R(PoolRef::clone_from(&pool, h.c())),
                        };
                        allocs.push((m, 1));
                        hs.push((h, allocs.len() - 1));
                    }
                    6 => {
                        // Another handle on the same value, or for a box a copy.
                        let a = hs[i].1;
                        let h = match &hs[i].0 {
                            H::R(r) => {
                                allocs[a].1 += 1;
                                hs.push((H::R(r.clone()), a));
                                return;
                            }
                            H::B(b) => H::B(b.clone()),
                        };
                        want_clones = allocs[a].0.len();
                        let m = allocs[a].0.clone();
                        allocs.push((m, 1));
                        hs.push((h, allocs.len() - 1));
                    }
                    7 | 8 | 11 | 12 => {
                        let a = hs[i].1;
                        let n = 1 + rng.below(4);
                        let (h, tag) = &mut hs[i];
                        match h {
                            H::R(r) => {
                                let c = PoolRef::make_mut(&pool, r);
                                if allocs[a].1 > 1 {
                                    // Shared: a copy of our own.
                                    allocs[a].1 -= 1;
                                    let m = allocs[a].0.clone();
                                    want_clones = m.len();
                                    allocs.push((m, 1));
                                    *tag = allocs.len() - 1;
                                }
                                for _ in 0..n {
                                    c.mutate(&mut rng, &mut allocs[*tag].0);
                                }
                            }
                            H::B(c) => {
                                for _ in 0..n {
                                    c.mutate(&mut rng, &mut allocs[a].0);
                                }
                            }
                        }
                    }
                    9 => {
                        let (h, a) = hs.swap_remove(i);
                        allocs[a].1 -= 1;
                        drop(h);
                        if allocs[a].1 == 0 {
                            allocs[a].0.clear();
                        }
                    }
                    10 => {
                        let (h, a) = hs.swap_remove(i);
                        match h {
                            H::R(r) => {
                                let sole = allocs[a].1 == 1;
                                allocs[a].1 -= 1;
                                let m = allocs[a].0.clone();
                                if sole {
                                    allocs[a].0.clear();
                                } else {
                                    want_clones = m.len();
                                }
                                loose.push((PoolRef::unwrap_or_clone(r), m));
                            }
                            b => hs.push((b, a)),
                        }
                    }
                    _ => {}
                }
            });
            if !r.is_ok() {
                run.violation(kind::POOL, &format!("{}: pool operation {} panicked", name, op));
                std::mem::forget((hs, loose));
                return;
            }
            if loose.len() > 3 {
                loose.remove(0);
            }
            if ledger().clones - clones != want_clones as u64 {
                msg = format!("pool operation {} made {} clones instead of {}", op, ledger().clones - clones, want_clones);
            }
            let mut held = 0;
            for (h, a) in &hs {
                let got = h.c().see();
                if got != allocs[*a].0 {
                    msg = format!("a pooled value holds {:?} instead of {:?} after operation {}", got, allocs[*a].0, op);
                }
            }
            for (c, m) in &loose {
                held += m.len();
                if c.see() != *m {
                    msg = format!("an unpooled value holds {:?} instead of {:?} after operation {}", c.see(), m, op);
                }
            }
            held += allocs.iter().map(|a| a.0.len()).sum::<usize>();
            for (k, e) in std::mem::take(&mut ledger().errs) {
                run.violation(k | kind::POOL, &format!("{}: {}", name, e));
            }
            if msg.is_empty() && ledger().live != held as isize {
                msg = format!("{} elements are alive instead of {} after operation {}", ledger().live, held, op);
            }
            if !msg.is_empty() {
                run.violation(kind::POOL, &format!("{}: {}", name, msg));
                std::mem::forget((hs, loose));
                return;
            }
        }
        let r = call(|| {
            drop(hs);
            drop(loose);
            drop(pool);
        });
        run.ledger_errs("dropping the pool");
        if !r.is_ok() || ledger().live != 0 {
            run.violation(kind::POOL | kind::LEDGER, &format!("{}: {} elements are left after everything was dropped", name, ledger().live));
        }
    }

    pub fn all(run: &mut Run, n: u64, nops: usize) {
        macro_rules! go {
            ($c:ident: $($n:expr),*) => {$(
                for h in 0..n {
                    if run.begin() {
                        let seed = mix(mix(run.seed, h), hash_str(concat!(stringify!($c), stringify!($n))));
                        history::<$c<Tok, $n>>(run, $n, seed, nops);
                        run.end();
                    }
                }
            )*};
        }
        go!(Chunk: 0, 1, 2, 5, 17, 64);
        go!(RingBuffer: 0, 1, 2, 5, 17, 64);
        go!(SparseChunk: 1, 5, 32, 64, 100, 200);
    }
}

fn main() {
    let mut run = Run::from_args();
    #[cfg(feature = "extra")]
    {
        let n = run.num("n", 50);
        let ops = run.num("ops", 40) as usize;
        pools::all(&mut run, n, ops);
    }
    run.finish()
}
