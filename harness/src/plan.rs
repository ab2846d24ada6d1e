//! Which cases the `Chunk`/`RingBuffer` interpreter runs: every layout of a
//! small container with every operation, and random histories over many
//! capacities; with and without injected faults.

use crate::core::*;
use crate::seq::*;
use crate::seqc::*;

const HUGE: [usize; 6] = [usize::MAX, usize::MAX - 1, usize::MAX - 2, usize::MAX / 2, usize::MAX / 2 + 1, 1 << (usize::BITS / 2)];

fn layouts(ring: bool, inl: bool, n: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    if inl {
        return (0..=n).map(|len| (0, len)).collect();
    }
    for l in 0..=n {
        for len in 0..=n {
            if ring && (l < n || l == 0) || !ring && l + len <= n {
                v.push((l, len));
            }
        }
    }
    v
}

/// Indices for a container of this length: all in range, and, if wanted, ones
/// that aren't.
fn indices(len: usize, cap: usize, misuse: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=len).collect();
    if misuse {
        v.extend(len + 1..=cap + 2);
        v.extend(HUGE);
        v.push(usize::MAX - len);
        v.push(usize::MAX - cap);
    }
    v.dedup();
    v
}

/// Iterator patterns worth trying on `len` items.
pub fn patterns(len: usize, deep: bool) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    // Every interleaving of both ends, one step beyond the end.
    let depth = (len + 1).min(if deep { 5 } else { 2 });
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = Vec::new();
        for p in &layer {
            for s in [0, 1] {
                let mut q = p.clone();
                q.push(s);
                next.push(q);
            }
        }
        v.extend(next.iter().cloned());
        layer = next;
    }
    // Skipping, alone, twice, and mixed with single steps.
    let skips = [2, 3, 4, 10, 11, 12, 20, 21];
    for a in skips {
        v.push(vec![a]);
        if deep {
            for b in skips {
                v.push(vec![a, b]);
            }
            for b in [0, 1] {
                v.push(vec![a, b]);
                v.push(vec![b, a]);
                v.push(vec![b, a, 1 - b]);
            }
        }
    }
    v
}

fn unary(cfg: &Cfg, k_ring: bool, inl: bool, cap: usize, len: usize) -> Vec<Op> {
    use O::*;
    let g = cfg.groups;
    let mis = cfg.misuse > 0;
    let room = cap - len;
    let idx = indices(len, cap, mis);
    let mut v: Vec<Op> = Vec::new();
    if g & group::CORE != 0 {
        for o in [Unit, Pair, Drop, Move, PushB, PushF, PopB, PopF, Clear, TakeAll] {
            v.push(Op::new(o));
        }
        v.push(Op::new(New));
        v.push(Op::new(New).a(1));
        for x in [0, 100, 100 + len as u32 / 2, 100 + len as u32, 5000] {
            v.push(Op::new(InsertOrd).v(x));
        }
        for &i in &idx {
            for o in [Insert, Remove, Set, DropL, DropR, SplitOff, TakeF, TakeB] {
                v.push(Op::new(o).a(i).v(777));
            }
        }
    }
    if g & group::BULK != 0 {
        for &i in &idx {
            for n in 0..=room + 2 {
                if n > room && !mis {
                    continue;
                }
                v.push(Op::new(InsertFrom).a(i).b(n).c(n).p(vec![n]).v(500));
                // Lies: consistent and changing ones.
                if mis && i <= len + 1 {
                    for (x, y) in [
                        (n + 1, n + 1),
                        (n.wrapping_sub(1), n.wrapping_sub(1)),
                        (n, n + 1),
                        (n + 1, n),
                        (0, n),
                        (n, 0),
                        (room, n),
                        (n, room),
                        (usize::MAX, usize::MAX),
                        (usize::MAX, n),
                        (n, usize::MAX),
                        (usize::MAX - len - n, usize::MAX - len - n),
                        ((usize::MAX - len).wrapping_add(1), (usize::MAX - len).wrapping_add(1)),
                        (usize::MAX / 2 + 1, usize::MAX / 2 + 1),
                    ] {
                        if (x, y) != (n, n) {
                            v.push(Op::new(InsertFrom).a(i).b(n).c(x).p(vec![y]).v(500));
                        }
                    }
                }
            }
        }
        if mis && cap < 10_000 {
            let n = cap + ENDLESS;
            for i in [0, len / 2, len] {
                for (x, y) in [(0, 0), (1, 1), (room, room), (1, 0), (room, 1)] {
                    if x <= room && y <= room {
                        v.push(Op::new(InsertFrom).a(i).b(n).c(x).p(vec![y]).v(500));
                    }
                }
            }
            v.push(Op::new(Extend).b(n).v(500));
            if len <= 1 {
                v.push(Op::new(FromIter).b(n).v(500));
                v.push(Op::new(CollectFrom).a(cap + 1).b(n).v(500));
                v.push(Op::new(CollectFrom).a(cap).b(n).v(500));
            }
        }
        for n in 0..=room + 2 {
            if n <= room || mis {
                for h in 0..if mis { HINTS } else { HONEST } {
                    v.push(Op::new(Extend).b(n).c(h).v(500));
                }
                v.push(Op::new(ExtendVec).b(n).v(500));
                v.push(Op::new(ExtendRef).b(n).v(500));
            }
        }
        if len <= 1 {
            for n in 0..=cap + 2 {
                if n <= cap || mis {
                    for h in 0..if mis { HINTS } else { HONEST } {
                        v.push(Op::new(FromIter).b(n).c(h).v(500));
                        if h > 0 && n > 0 {
                            v.push(Op::new(CollectFrom).b(n).a((n - 1).min(cap)).c(h).v(500));
                        }
                    }
                }
                for m in 0..=cap + 2 {
                    if m <= n && m <= cap || mis {
                        v.push(Op::new(CollectFrom).b(n).a(m).v(500));
                    }
                }
                if mis {
                    v.push(Op::new(CollectFrom).b(n).a(usize::MAX).v(500));
                }
            }
        }
    }
    if g & group::ACCESS != 0 {
        for &i in &idx {
            for o in [Get, GetMut, Unchecked, Index, IndexMut] {
                v.push(Op::new(o).a(i).v(777));
            }
        }
        v.push(Op::new(Ends).v(777));
        for x in 99..=101 + len as u32 {
            v.push(Op::new(Contains).v(x));
            v.push(Op::new(Search).v(x));
        }
        for a in 0..=len {
            for b in a..=len {
                for c in 0..3 {
                    v.push(Op::new(Fixes).a(a).b(b).c(c));
                }
            }
        }
    }
    if g & group::SORT != 0 {
        for c in 0..3 {
            v.push(Op::new(Sort).c(c));
        }
        for &i in &idx {
            for &j in &idx {
                v.push(Op::new(Swap).a(i).b(j));
                if k_ring {
                    v.push(Op::new(Swap).a(i).b(j).c(1));
                }
            }
        }
    }
    if g & group::ITER != 0 {
        let deep = cfg.iters && !cfg!(miri);
        for kinds in 0..6 {
            for p in patterns(len, deep) {
                for fin in 0..FINS {
                    if !deep && p.len() > 1 && fin != 0 && fin != 7 && fin != FORGET || fin > FORGET && !p.is_empty() {
                        continue;
                    }
                    v.push(Op::new(Iter).a(kinds).b(fin).p(p.clone()).v(600));
                }
            }
        }
    }
    if g & group::VIEW != 0 {
        v.push(Op::new(View));
        v.push(Op::new(Fmt));
        for i in 0..len {
            for w in 0..VIEWS {
                for c in 0..3 {
                    v.push(Op::new(ViewMut).a(i).b(w).c(c).v(777));
                }
            }
            for o in [Set, GetMut, Unchecked, IndexMut] {
                v.push(Op::new(o).a(i).v(777));
            }
        }
        if !k_ring {
            for &a in &idx {
                for &b in &idx {
                    for form in 0..4 {
                        v.push(Op::new(IndexRange).a(a).b(b).c(form));
                        v.push(Op::new(IndexRangeMut).a(a).b(b).c(form).v(777));
                    }
                }
            }
        }
        for p in [vec![], vec![0, 1], vec![1, 1, 0]] {
            for kinds in 2..4 {
                v.push(Op::new(Iter).a(kinds).b(7).p(p.clone()).v(600));
            }
        }
    }
    if g & group::COPY != 0 {
        v.push(Op::new(Clone));
        for n in 0..=room {
            v.push(Op::new(ExtendRef).b(n).v(500));
        }
        for n in 0..=cap {
            v.push(Op::new(FromIter).b(n).v(500));
        }
    }
    if g & group::POOL != 0 {
        for f in [0x00, 0xff, 0xaa, 0x01] {
            v.push(Op::new(PoolDefault).a(f));
            v.push(Op::new(PoolClone).a(f));
        }
    }
    if g & group::IO != 0 {
        for n in 0..=cap + 2 {
            v.push(Op::new(Write).b(n).v(33));
            v.push(Op::new(Read).b(n));
        }
    }
    if g & group::SLICE != 0 && k_ring {
        v.extend(slice_ops(len, cap, mis));
    }
    if inl {
        if g & (group::LAYOUT | group::VIEW) != 0 {
            v.push(Op::new(Layout));
        }
        if g & group::COPY != 0 {
            for c in 0..2 {
                for a in 0..CHUNKS.len() {
                    if mis || CHUNKS[a] >= len {
                        v.push(Op::new(ToChunk).a(a).c(c).v(800));
                    }
                }
            }
        }
        v.retain(|op| inl_has(op.o));
    }
    v
}

fn slice_ops(len: usize, cap: usize, mis: bool) -> Vec<Op> {
    let mut v = Vec::new();
    let idx = indices(len, cap, mis);
    // Every range in every form, read and written through.
    for form in 0..6 {
        for &a in &idx {
            for &b in &idx {
                if form >= 2 && b != 0 && (form == 2 || form == 5) || (form == 3 || form == 4 || form == 5) && a != 0 {
                    continue;
                }
                for m in 0..2 {
                    v.push(Op::new(O::Slice).a(m).c(0).p(vec![form, a, b, 0, 0, 0]));
                }
            }
        }
    }
    for m in 0..2 {
        for c in 0..17 {
            v.push(Op::new(O::Slice).a(m).b(1).c(c).p(vec![0, 0, len, 0, 0, len / 2]));
        }
    }
    // Every action on every window.
    for a in 0..=len {
        for b in a..=len {
            let n = b - a;
            let mut xs: Vec<usize> = (0..=n).collect();
            if mis {
                xs.extend([n + 1, cap - a, cap, usize::MAX, usize::MAX - a, (usize::MAX - a).wrapping_add(1), usize::MAX - b]);
            }
            xs.dedup();
            for act in [1, 2, 5, 6, 7, 11, 13, 14] {
                for &x in &xs {
                    for m in 0..2 {
                        if m == 0 && ((5..8).contains(&act) || act == 11) {
                            continue;
                        }
                        v.push(Op::new(O::Slice).a(m).c(act).v(777).p(vec![0, a, b, 0, x, x]));
                    }
                }
            }
            for act in [3, 4, 8, 9, 12] {
                for m in 0..2 {
                    v.push(Op::new(O::Slice).a(m).c(act).v(777).p(vec![0, a, b, 0, 0, 0]));
                }
            }
            for m in 0..2 {
                v.push(Op::new(O::Slice).a(m).c(3).v(777).p(vec![0, a, b, 0, 1, 0]));
                v.push(Op::new(O::Slice).a(1).c(16).v(777).p(vec![0, a, b, 0, 0, m]));
            }
            for x in 0..n {
                for y in 0..n {
                    v.push(Op::new(O::Slice).a(1).c(10).p(vec![0, a, b, 0, x, y]));
                    if x != y || mis {
                        v.push(Op::new(O::Slice).a(1).c(15).p(vec![0, a, b, 0, x, y]));
                    }
                }
            }
            if mis {
                v.push(Op::new(O::Slice).a(1).c(15).p(vec![0, a, b, 0, 0, n]));
                v.push(Op::new(O::Slice).a(1).c(15).p(vec![0, a, b, 0, n, 0]));
                v.push(Op::new(O::Slice).a(1).c(10).p(vec![0, a, b, 0, 0, n]));
                v.push(Op::new(O::Slice).a(1).c(10).p(vec![0, a, b, 0, n, 0]));
            }
            // A window within the window, and halves of it.
            for form in 0..6 {
                for x in 0..=n + mis as usize {
                    for y in 0..=n + mis as usize {
                        for act in [0, 1] {
                            for m in 0..2 {
                                v.push(Op::new(O::Slice).a(m).c(act).p(vec![0, a, b, 0, form, x, y, 0, 0, 0]));
                            }
                        }
                    }
                }
                if mis {
                    for (x, y) in [(0, usize::MAX), (usize::MAX, usize::MAX), (usize::MAX - a, n), (0, usize::MAX - a), ((usize::MAX - a).wrapping_add(1), (usize::MAX - a).wrapping_add(1)), (n, 0)] {
                        for m in 0..2 {
                            v.push(Op::new(O::Slice).a(m).c(0).p(vec![0, a, b, 0, form, x, y, 0, 0, 0]));
                        }
                    }
                }
            }
            for x in 0..=n + mis as usize {
                for how in [1, 2] {
                    for act in [0, 1, 2, 9] {
                        for m in 0..2 {
                            let w = if how == 1 { x } else { n.saturating_sub(x) };
                            v.push(Op::new(O::Slice).a(m).c(act).v(777).p(vec![0, a, b, 0, 0, x, 0, how, w, w]));
                        }
                    }
                }
            }
        }
    }
    v
}

fn binary(cfg: &Cfg, ring: bool, cap: usize, len: usize, tlen: usize) -> Vec<Op> {
    use O::*;
    let g = cfg.groups;
    let mis = cfg.misuse > 0;
    let mut v = Vec::new();
    if g & group::CORE != 0 {
        v.push(Op::new(Append));
        for n in indices(tlen.min(cap - len), cap, mis) {
            v.push(Op::new(DrainFF).a(n));
            v.push(Op::new(DrainFB).a(n));
        }
    }
    if g & group::COPY != 0 {
        v.push(Op::new(CloneFrom));
        v.push(Op::new(Clone));
    }
    if g & group::REL != 0 {
        for a in 0..len.max(1) {
            v.push(Op::new(Rel).a(a));
        }
    }
    if g & (group::SLICE | group::REL) != 0 && ring {
        for a in 0..=len {
            for c in 0..=tlen {
                v.push(Op::new(SliceRel).a(a).b(len).c(c).v(tlen as u32));
                v.push(Op::new(SliceRel).a(0).b(a).c(0).v(c as u32));
                v.push(Op::new(SliceRel).a(a).b((a + 2).min(len)).c(c).v((c + 2).min(tlen) as u32));
            }
        }
    }
    v
}

impl<'r, E: Elem> Eng<'r, E> {
    /// Run a case: bring it about, do the operation (with a fault at every
    /// place in turn, if wanted), look, use the containers, end.
    fn case(&mut self, faults: bool, setup: &mut dyn FnMut(&mut Self), op: &Op) {
        if !self.run.begin() {
            return;
        }
        let mut f = if faults { 1 } else { 0 };
        loop {
            self.start();
            setup(self);
            self.fx.fault = f;
            self.step(op);
            self.fx.fault = 0;
            let fired = self.fx.fired.is_some();
            if !self.dead {
                self.epilogue(op.s);
                if op.t != op.s && matches!(op.o, O::Append | O::DrainFF | O::DrainFB | O::SplitOff | O::TakeF | O::TakeB | O::TakeAll | O::Clone | O::CloneFrom | O::PoolClone | O::PoolDefault | O::New | O::Unit | O::Pair | O::FromIter | O::CollectFrom) || fired {
                    self.epilogue(op.t);
                }
            }
            self.stop();
            if !fired || self.run.tainted && self.dead {
                break;
            }
            f += 1;
        }
        self.run.end();
    }

    pub fn exhaustive(&mut self, faults: bool, maxcap1: usize, maxcap2: usize) {
        let (cap, ring, inl, cfg) = (self.k.lim, self.k.ring, self.k.inl, self.cfg);
        if cap > maxcap1 {
            return;
        }
        let lays = layouts(ring, inl, cap);
        for &(l, len) in &lays {
            for op in unary(&cfg, ring, inl, cap, len) {
                // Ordered and unordered contents with repetitions, where it matters.
                let dups: &[bool] = if matches!(op.o, O::Search | O::Sort | O::InsertOrd | O::Contains | O::Fixes) || op.o == O::Slice && op.c == 11 { &[false, true] } else { &[false] };
                for &dup in dups {
                    self.case(faults, &mut |e| e.layout(0, l, len, 100, dup), &op);
                }
            }
        }
        if cap > maxcap2 {
            return;
        }
        for &(l, len) in &lays {
            for &(l2, len2) in &lays {
                for op in binary(&cfg, ring, cap, len, len2) {
                    if inl && !inl_has(op.o) {
                        continue;
                    }
                    let rel = matches!(op.o, O::Rel | O::SliceRel);
                    let vs: &[u32] = if rel { &[100, 101] } else { &[200] };
                    for &v in vs {
                        self.case(
                            faults,
                            &mut |e| {
                                e.layout(0, l, len, 100, false);
                                e.layout(1, l2, len2, v, false);
                            },
                            &op,
                        );
                    }
                }
            }
        }
    }

    /// Empty a chunk that had something anywhere, one way or another, and fill
    /// it from one side.
    fn fillings(&mut self) {
        let (cap, ring, inl) = (self.k.lim, self.k.ring, self.k.inl);
        if ring || inl {
            return;
        }
        let lays: Vec<(usize, usize)> = if cap <= 8 {
            layouts(ring, inl, cap)
        } else {
            [(0, 0), (0, 1), (0, cap), (1, 2), (cap / 2, 0), (cap / 2, 3), (cap - 1, 0), (cap - 1, 1), (cap - 3, 2), (cap, 0)].to_vec()
        };
        for (l, len) in lays {
            for way in 0..7 {
                for push in [O::PushB, O::PushF] {
                    if !self.run.begin() {
                        continue;
                    }
                    self.start();
                    self.layout(0, l, len, 100, false);
                    match way {
                        0 => self.step(&Op::new(O::Clear)),
                        1 => self.step(&Op::new(O::DropL).a(len)),
                        2 => self.step(&Op::new(O::DropR).a(0)),
                        3 => self.step(&Op::new(O::SplitOff).a(0)),
                        w => {
                            for _ in 0..len {
                                self.step(&match w {
                                    4 => Op::new(O::PopF),
                                    5 => Op::new(O::PopB),
                                    _ => Op::new(O::Remove).a(0),
                                });
                            }
                        }
                    }
                    for i in 0..cap {
                        self.step(&Op::new(push).v(i as u32));
                    }
                    if self.streak.is_some() {
                        self.run.count("filled_from_one_side", 1);
                    }
                    self.stop();
                    self.run.end();
                }
            }
        }
    }

    pub fn random(&mut self, histories: u64, nops: usize, faults: bool) {
        let base = mix(mix(self.run.seed, hash_str(&self.name())), faults as u64 + 5);
        for h in 0..histories {
            if !self.run.begin() {
                continue;
            }
            let mut rng = Rng::new(mix(base, h));
            self.start();
            let cap = self.k.lim;
            let flavour = rng.below(4);
            for s in 0..3 {
                let len = if cap == 0 { 0 } else { pick_len(&mut rng, cap) };
                let l = if self.k.inl { 0 } else if self.k.ring { rng.below(cap.max(1)) } else { rng.below(cap - len + 1) };
                let v = if rng.chance(1, 2) { 100 } else { rng.below(1000) as u32 };
                self.layout(s, l, len, v, flavour == 1);
            }
            let n = nops / 2 + rng.below(nops / 2 + 1);
            let mut bias = rng.below(5);
            for _ in 0..n {
                if self.dead {
                    break;
                }
                if rng.chance(1, 12) {
                    bias = rng.below(5);
                }
                let op = self.gen(&mut rng, bias, flavour);
                if faults && rng.chance(1, 3) {
                    self.fx.fault = 1 + rng.below(5) as u64;
                }
                self.step(&op);
                self.fx.fault = 0;
            }
            self.stop();
            self.run.end();
        }
    }

    fn gen(&mut self, rng: &mut Rng, bias: usize, flavour: usize) -> Op {
        use O::*;
        let g = self.cfg.groups;
        let cap = self.k.lim;
        let inl = self.k.inl;
        let s = rng.below(3);
        let t = (s + 1 + rng.below(2)) % 3;
        let len = self.sl[s].m.len();
        let tlen = self.sl[t].m.len();
        let room = cap.saturating_sub(len);
        let mis = self.cfg.misuse;
        let mut groups: Vec<u32> = Vec::new();
        for (b, w) in [(group::CORE, 8), (group::BULK, 3), (group::ACCESS, 2), (group::ITER, 3), (group::VIEW, 2), (group::COPY, 2), (group::REL, 2), (group::SLICE, 3), (group::IO, 3), (group::POOL, 2), (group::SORT, 1)] {
            // Whatever is being checked needs some core operations to get around.
            let w = if inl && (b == group::SLICE || b == group::IO || b == group::POOL) { 0 } else if b == group::CORE && g & b == 0 && g & group::STILL == 0 { 4 } else if g & b != 0 { w } else { 0 };
            groups.extend(std::iter::repeat(b).take(w));
        }
        let gr = groups[rng.below(groups.len())];
        let misuse = |rng: &mut Rng| rng.below(100) < mis;
        let idx = |rng: &mut Rng, max: usize| -> usize {
            if misuse(rng) {
                match rng.below(8) {
                    0 => max + 1,
                    1 => cap,
                    2 => cap + 1,
                    3 => usize::MAX,
                    4 => usize::MAX - rng.below(cap + 2),
                    5 => usize::MAX / 2 + rng.below(2),
                    6 => max + rng.below(cap + 2),
                    _ => 1 << rng.below(usize::BITS as usize),
                }
            } else {
                match rng.below(6) {
                    0 => 0,
                    1 => max,
                    2 => max / 2,
                    3 => max.saturating_sub(1),
                    4 => 1.min(max),
                    _ => rng.below(max + 1),
                }
            }
        };
        let v = if flavour == 1 { rng.below(4) as u32 } else { rng.below(5000) as u32 };
        let mut op = match gr {
            group::CORE => {
                let add = [PushB, PushF, Insert, InsertOrd, Append, DrainFF, DrainFB];
                let sub = [PopB, PopF, Remove, DropL, DropR, SplitOff, TakeF, TakeB];
                let other = [Set, Move, TakeAll, Clear, Unit, Pair, New, Drop];
                let o = match bias {
                    0 | 1 if rng.chance(3, 4) => add[rng.below(add.len())],
                    2 | 3 if rng.chance(3, 4) => sub[rng.below(sub.len())],
                    _ => match rng.below(5) {
                        0 | 1 => add[rng.below(add.len())],
                        2 | 3 => sub[rng.below(sub.len())],
                        _ => other[rng.below(other.len())],
                    },
                };
                let a = match o {
                    Insert | DropL | DropR | SplitOff | TakeF | TakeB => idx(rng, len),
                    Remove | Set => idx(rng, len.saturating_sub(1)),
                    DrainFF | DrainFB => idx(rng, tlen.min(room)),
                    _ => rng.below(2),
                };
                Op::new(o).a(a)
            }
            group::BULK => {
                let o = [InsertFrom, InsertFrom, InsertFrom, Extend, ExtendVec, ExtendRef, FromIter, CollectFrom][rng.below(8)];
                let most = if matches!(o, FromIter | CollectFrom) { cap } else { room };
                let mut n = match rng.below(4) {
                    0 => most,
                    1 => rng.below(most.min(4) + 1),
                    _ => rng.below(most + 1),
                };
                if misuse(rng) {
                    n = most + 1 + rng.below(3);
                }
                let mut op = Op::new(o).b(n);
                if o == InsertFrom {
                    op.a = idx(rng, len);
                    op.c = n;
                    let mut later = n;
                    if misuse(rng) {
                        let lie = |rng: &mut Rng| match rng.below(6) {
                            0 => n + 1 + rng.below(3),
                            1 => n.saturating_sub(1 + rng.below(3)),
                            2 => room,
                            3 => usize::MAX - rng.below(cap + 3),
                            4 => rng.below(cap + 2),
                            _ => usize::MAX / 2 + 1,
                        };
                        op.c = lie(rng);
                        later = if rng.chance(1, 2) { op.c } else { lie(rng) };
                        if rng.chance(1, 30) && cap < 10_000 {
                            op.b = cap + ENDLESS;
                        }
                    }
                    op.p = vec![later];
                } else if o == CollectFrom {
                    op.a = if misuse(rng) { n + 1 + rng.below(3) } else { rng.below(n.min(cap) + 1) };
                }
                if matches!(o, Extend | FromIter | CollectFrom) && rng.chance(1, 2) {
                    let kinds = if misuse(rng) { HINTS } else { HONEST };
                    op.c = rng.below(kinds);
                }
                op
            }
            group::ACCESS => {
                let o = [Get, GetMut, Unchecked, Index, IndexMut, Ends, Contains, Search, Fixes][rng.below(9)];
                let mut op = Op::new(o).a(idx(rng, len.saturating_sub(1)));
                if o == Fixes {
                    op.a = if rng.chance(1, 2) { 0 } else { rng.below(len + 1) };
                    op.b = if rng.chance(1, 2) { len } else { rng.below(len + 1) };
                    op.c = rng.below(3);
                }
                op
            }
            group::ITER => {
                let steps = rng.below(6);
                let p = (0..steps).map(|_| if rng.chance(2, 3) { rng.below(2) } else { [2, 3, 4, 5, 9, 10, 11, 12, 13, 17, 20, 21][rng.below(12)] }).collect();
                Op::new(Iter).a(rng.below(6)).b(rng.below(FINS)).p(p)
            }
            group::VIEW => {
                let o = [View, View, ViewMut, IndexRange, IndexRangeMut, Fmt][rng.below(6)];
                let (mut a, mut b) = (idx(rng, len), idx(rng, len));
                if a > b && !misuse(rng) {
                    std::mem::swap(&mut a, &mut b);
                }
                if o == ViewMut {
                    a = rng.below(len.max(1));
                    b = rng.below(VIEWS);
                }
                Op::new(o).a(a).b(b).c(rng.below(4))
            }
            group::COPY if inl && rng.chance(1, 3) => Op::new(ToChunk).a(rng.below(CHUNKS.len())).c(rng.below(2)),
            group::COPY => Op::new([Clone, CloneFrom, ExtendRef, FromIter][rng.below(4)]).b(rng.below(room + 1)),
            group::REL => {
                if rng.chance(1, 2) {
                    Op::new(Rel).a(rng.below(len.max(1)))
                } else {
                    let mut op = Op::new(SliceRel).a(rng.below(len + 1)).b(rng.below(len + 1)).c(rng.below(tlen + 1));
                    op.v = rng.below(tlen + 1) as u32;
                    op.s = s;
                    op.t = t;
                    return op;
                }
            }
            group::SLICE => {
                let (mut a, mut b) = (idx(rng, len), idx(rng, len));
                if a > b && !misuse(rng) {
                    std::mem::swap(&mut a, &mut b);
                }
                let mut p = vec![rng.below(6), a, b, 0];
                let mut n = match parse_range(range_of(p[0], a, b), len) {
                    Some((x, y)) => y - x,
                    None => 0,
                };
                for _ in 0..rng.below(3) {
                    let how = rng.below(3);
                    let (mut x, mut y) = (idx(rng, n), idx(rng, n));
                    if how == 0 && x > y && !misuse(rng) {
                        std::mem::swap(&mut x, &mut y);
                    }
                    let form = rng.below(6);
                    p.extend([form, x, y, how]);
                    n = match how {
                        0 => parse_range(range_of(form, x, y), n).map_or(0, |(x, y)| y - x),
                        1 => x.min(n),
                        _ => n.saturating_sub(x),
                    };
                }
                p.push(idx(rng, n));
                p.push(idx(rng, n));
                Op::new(Slice).a(rng.below(2)).b(rng.chance(1, 5) as usize).c(rng.below(17)).p(p)
            }
            group::IO => {
                let o = [Write, Read][rng.below(2)];
                let most = if o == Write { room } else { len };
                let n = match rng.below(6) {
                    0 => 0,
                    1 => most,
                    2 => most + 1 + rng.below(4),
                    3 => cap + rng.below(3),
                    _ => rng.below(most + 1),
                };
                Op::new(o).b(n)
            }
            group::POOL => Op::new([PoolDefault, PoolClone, PoolClone][rng.below(3)]).a(rng.below(256)),
            _ => {
                if rng.chance(1, 2) {
                    Op::new(Sort).c(rng.below(3))
                } else {
                    Op::new(Swap).a(idx(rng, len.saturating_sub(1))).b(idx(rng, len.saturating_sub(1))).c(rng.below(2))
                }
            }
        };
        if inl && !inl_has(op.o) {
            op.o = match op.o {
                PushF | Append | DrainFF | DrainFB => PushB,
                PopF => PopB,
                InsertOrd => {
                    op.a = idx(rng, len);
                    Insert
                }
                DropL | DropR | TakeF | TakeB => SplitOff,
                Set => Remove,
                InsertFrom => Extend,
                CollectFrom => FromIter,
                _ => New,
            };
        } else if inl && op.o == View && rng.chance(1, 2) {
            op.o = Layout;
        }
        op.s = s;
        op.t = t;
        op.v = v;
        op
    }
}

fn pick_len(rng: &mut Rng, cap: usize) -> usize {
    match rng.below(8) {
        0 => 0,
        1 => cap,
        2 => cap - 1,
        3 => 1,
        4 => cap / 2,
        _ => rng.below(cap + 1),
    }
}

/// Run the plan that the arguments ask for on one configuration.
pub fn run_config<E: Elem>(run: &mut Run, k: Ctor<E>) {
    let which = run.get("of").unwrap_or("both").to_string();
    if which == "chunk" && (k.ring || k.inl) || which == "ring" && !k.ring || which == "inl" && !k.inl {
        return;
    }
    if let Some(e) = run.get("elem") {
        if !e.split(',').any(|x| x == E::NAME) {
            return;
        }
    }
    let cfg = Cfg::from(run);
    let ex1 = run.num("ex1", 0) as usize;
    let ex2 = run.num("ex2", 0) as usize;
    let histories = run.num("n", 0);
    let nops = run.num("ops", 30) as usize;
    let faults = run.num("faults", 0) != 0;
    let (mincap, maxcap) = (run.num("mincap", 0) as usize, run.num("maxcap", 1 << 20) as usize);
    let has = |x: &str| run.get("do").map_or(true, |d| d.split(',').any(|y| y == x));
    let (ex, rnd, fill) = (has("ex"), has("rand"), has("fill"));
    if k.lim < mincap || k.lim > maxcap {
        return;
    }
    if cfg.groups & !group::IO == 0 && k.write.is_none() {
        return;
    }
    if k.inl {
        // It can be made at all.
        if run.begin() {
            run.log = format!("InlineArray<{},{}>::new", E::NAME, k.host);
            if !call(|| drop((k.new)())).is_ok() {
                let m = format!("InlineArray<{},{}>::new() panicked though the host can hold it", E::NAME, k.host);
                run.violation(kind::LAYOUT | kind::MODEL, &m);
                run.end();
                return;
            }
            run.end();
        } else if !call(|| drop((k.new)())).is_ok() {
            return;
        }
    }
    let mut e = Eng::new(run, k, cfg);
    if ex && ex1 > 0 {
        e.exhaustive(faults, ex1 - 1, (ex2.max(1)) - 1);
    }
    if cfg.cost && fill {
        e.fillings();
    }
    if rnd && histories > 0 {
        // Fewer of the big ones: their histories are longer to look at.
        let h = if k.cap > 300 { histories / 4 + 1 } else if k.cap > 80 { histories / 2 + 1 } else { histories };
        e.random(h, nops, faults);
    }
}
