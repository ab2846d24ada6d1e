//! Monitors: the element ledger, fault injection, violation reporting, the
//! watchdog, and what every engine needs besides (random numbers, coverage).

use std::cell::UnsafeCell;
use std::cmp::Ordering;
use std::collections::HashSet;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering as AO};

// ---------------------------------------------------------------- random

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

pub fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
    h ^ (h >> 32)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

// ---------------------------------------------------------------- violations

/// What kind of observation a violation is. A check states which kinds refute
/// its property; one observation can be of several kinds.
pub type Kinds = u32;
pub mod kind {
    use super::Kinds;
    macro_rules! kinds {
        ($($n:ident $s:expr, $i:expr;)*) => {
            $(pub const $n: Kinds = 1 << $i;)*
            pub const ALL: &[(Kinds, &str)] = &[$(($n, $s)),*];
        };
    }
    kinds! {
        // Contents, results or acceptance of an operation that can be honoured
        // differ from the model.
        MODEL "model", 0;
        // An operation that can't be honoured was, or had an effect.
        REFUSE "refuse", 1;
        // What an iterator yields, announces or leaves behind.
        ITER "iter", 2;
        // What a RingBuffer slice shows or touches.
        SLICE "slice", 3;
        // Results of comparisons and hashing.
        REL "rel", 4;
        // A copy or conversion isn't faithful, or not independent.
        COPY "copy", 5;
        // As COPY, for pool construction.
        POOL "pool", 6;
        // Reading and writing bytes.
        IO "io", 7;
        // Size, capacity, alignment and addresses of an InlineArray.
        LAYOUT "layout", 8;
        // Values made by Arbitrary.
        ARB "arb", 9;
        // Two views of a container disagree.
        VIEW "view", 10;
        // Contents after a panic in user code.
        FAULT "fault", 11;
        // Bulk insertion took or kept the wrong items.
        BULK "bulk", 12;
        // An element was lost, duplicated, or dropped twice.
        LEDGER "ledger", 13;
        // Something that isn't a live element was treated as one.
        GARBAGE "garbage", 14;
        // Memory next to the container changed.
        CANARY "canary", 15;
        // Elements were relocated, cloned or compared more than allowed.
        COST "cost", 16;
        // References handed out together overlap, or an element is misplaced.
        ALIAS "alias", 17;
        // One operation used up its whole budget of processor time.
        HANG "hang", 18;
        // A container used the heap, or isn't all in one place.
        HEAP "heap", 19;
        // A container behaves differently in, or among, other threads.
        THREAD "thread", 20;
    }
    pub fn names(k: Kinds) -> String {
        let v: Vec<&str> = ALL.iter().filter(|x| x.0 & k != 0).map(|x| x.1).collect();
        v.join("+")
    }
    pub fn parse(s: &str) -> Kinds {
        s.split(',').filter(|x| !x.is_empty()).fold(0, |a, x| {
            a | if x == "all" {
                u32::MAX
            } else {
                ALL.iter().find(|k| k.1 == x).unwrap_or_else(|| super::die(&format!("unknown kind {}", x))).0
            }
        })
    }
}

/// An error of the harness itself: neither "held" nor "violated".
pub fn die(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {}", msg);
    std::process::exit(5)
}

// ---------------------------------------------------------------- the ledger

const LIVE: u8 = 1;
const DEAD: u8 = 2;

/// Callback sites of user code at which a panic can be injected.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tick {
    Clone,
    Drop,
    Cmp,
    Eq,
    Hash,
    Fmt,
    Next,
    Call,
}

#[derive(Default)]
pub struct Ledger {
    state: Vec<u8>,
    pub live: isize,
    pub zst_live: isize,
    pub made: u64,
    pub clones: u64,
    pub drops: u64,
    pub cmps: u64,
    pub nexts: u64,
    // Fault injection: panic at the `fault_at`th tick (1-based), 0 for off.
    pub fault_at: u64,
    pub ticks: u64,
    pub fired: Option<Tick>,
    pub faults_fired: u64,
    pub errs: Vec<(Kinds, String)>,
    pub events: u64,
}

struct Global<T>(UnsafeCell<Option<T>>);
// The harness is single-threaded; the watchdog thread only touches atomics.
unsafe impl<T> Sync for Global<T> {}
static LEDGER: Global<Ledger> = Global(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
pub fn ledger() -> &'static mut Ledger {
    unsafe { (*LEDGER.0.get()).get_or_insert_with(Ledger::default) }
}

impl Ledger {
    pub fn reset(&mut self) {
        self.state.clear();
        self.state.push(0);
        self.live = 0;
        self.zst_live = 0;
        self.fault_at = 0;
        self.ticks = 0;
        self.fired = None;
        self.errs.clear();
    }
    fn fresh(&mut self) -> u64 {
        if self.state.is_empty() {
            self.state.push(0);
        }
        self.state.push(LIVE);
        self.live += 1;
        self.made += 1;
        self.events += 1;
        (self.state.len() - 1) as u64
    }
    /// The identity the next element to be made will get.
    pub fn watermark(&self) -> u64 {
        self.state.len().max(1) as u64
    }
    pub fn is_live(&self, uid: u64) -> bool {
        (uid as usize) < self.state.len() && self.state[uid as usize] == LIVE
    }
    pub fn err(&mut self, k: Kinds, msg: String) {
        if self.errs.len() < 16 {
            self.errs.push((k, msg));
        }
    }
    pub fn arm(&mut self, at: u64) {
        self.fault_at = at;
        self.ticks = 0;
        self.fired = None;
    }
    pub fn disarm(&mut self) -> Option<Tick> {
        self.fault_at = 0;
        self.fired.take()
    }
}

pub struct Injected;

/// A callback into user code is happening.
#[inline]
pub fn tick(t: Tick) {
    let l = ledger();
    l.events += 1;
    match t {
        Tick::Cmp => l.cmps += 1,
        Tick::Next => l.nexts += 1,
        _ => {}
    }
    if l.fault_at != 0 && !std::thread::panicking() {
        l.ticks += 1;
        if l.ticks == l.fault_at {
            l.fault_at = 0;
            l.fired = Some(t);
            l.faults_fired += 1;
            std::panic::panic_any(Injected);
        }
    }
}

// ---------------------------------------------------------------- elements

/// What the monitor sees of an element: its identity (0 when it has none) and
/// its value.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct Obs {
    pub uid: u64,
    pub val: u32,
}

pub trait Elem: Sized + 'static + Clone + Ord + Hash + fmt::Debug {
    const NAME: &'static str;
    /// Whether identities are tracked.
    const UID: bool;
    /// Whether live instances are counted.
    const COUNTED: bool;
    /// Whether clones are counted.
    const CLONES: bool = Self::UID || Self::COUNTED;
    /// Reduce a value to what this type can represent.
    fn rep(v: u32) -> u32;
    fn make(v: u32) -> Self;
    fn val(&self) -> u32;
    fn uid(&self) -> u64 {
        0
    }
    /// Overwrite the value in place, keeping the identity.
    fn poke(&mut self, v: u32);
    fn dbg(v: u32) -> String;
    fn live() -> isize {
        if Self::UID {
            ledger().live
        } else if Self::COUNTED {
            ledger().zst_live
        } else {
            0
        }
    }
}

/// Look at an element, checking that it is one.
pub fn look<E: Elem>(e: &E) -> Obs {
    if (e as *const E as usize) % std::mem::align_of::<E>() != 0 {
        ledger().err(kind::GARBAGE, format!("misaligned element at {:p}", e));
        return Obs { uid: u64::MAX, val: u32::MAX };
    }
    let o = Obs { uid: e.uid(), val: e.val() };
    if E::UID && !ledger().is_live(o.uid) {
        ledger().err(kind::GARBAGE, "an element that isn't live is exposed".into());
    }
    o
}

const MAGIC: u32 = 0x600D_E1E3;
const TOMB: u32 = 0xDEAD_E1E3;

/// The main element: identity, value, stamp.
#[repr(C)]
pub struct Tok {
    uid: u64,
    val: u32,
    magic: u32,
    #[cfg(feature = "heap")]
    heap: std::mem::ManuallyDrop<Box<u64>>,
}

impl Tok {
    fn with(val: u32) -> Tok {
        let uid = ledger().fresh();
        Tok {
            uid,
            val,
            magic: MAGIC,
            #[cfg(feature = "heap")]
            heap: std::mem::ManuallyDrop::new(Box::new(uid)),
        }
    }
    fn ok(&self) -> bool {
        if self.magic != MAGIC || !ledger().is_live(self.uid) {
            return false;
        }
        #[cfg(feature = "heap")]
        if **self.heap != self.uid {
            return false;
        }
        true
    }
    fn check(&self, what: &str) {
        if !self.ok() {
            ledger().err(kind::GARBAGE, format!("{} on something that isn't a live element", what));
        }
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let l = ledger();
        l.events += 1;
        l.drops += 1;
        if self.magic != MAGIC && self.magic != TOMB || self.uid as usize >= l.state.len() || self.uid == 0 {
            l.err(kind::GARBAGE, "destructor run on something that isn't an element".into());
            return;
        }
        if l.state[self.uid as usize] != LIVE {
            l.err(kind::LEDGER, format!("element #{} dropped twice", self.uid));
            return;
        }
        l.state[self.uid as usize] = DEAD;
        l.live -= 1;
        #[cfg(feature = "heap")]
        unsafe {
            std::mem::ManuallyDrop::drop(&mut self.heap);
        }
        unsafe { std::ptr::write_volatile(&mut self.magic, TOMB) };
        tick(Tick::Drop);
    }
}

impl Clone for Tok {
    fn clone(&self) -> Self {
        self.check("clone");
        tick(Tick::Clone);
        ledger().clones += 1;
        Tok::with(self.val)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        self.check("eq");
        o.check("eq");
        tick(Tick::Eq);
        self.val == o.val
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Self) -> Ordering {
        self.check("cmp");
        o.check("cmp");
        tick(Tick::Cmp);
        self.val.cmp(&o.val)
    }
}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check("hash");
        tick(Tick::Hash);
        self.val.hash(h)
    }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.check("fmt");
        tick(Tick::Fmt);
        fmt::Debug::fmt(&self.val, f)
    }
}
impl Elem for Tok {
    const NAME: &'static str = "tok";
    const UID: bool = true;
    const COUNTED: bool = true;
    fn rep(v: u32) -> u32 {
        v
    }
    fn make(v: u32) -> Self {
        Tok::with(v)
    }
    fn val(&self) -> u32 {
        self.val
    }
    fn uid(&self) -> u64 {
        if self.ok() {
            self.uid
        } else {
            ledger().err(kind::GARBAGE, "something that isn't a live element is exposed as one".into());
            u64::MAX
        }
    }
    fn poke(&mut self, v: u32) {
        self.val = v;
    }
    fn dbg(v: u32) -> String {
        format!("{:?}", v)
    }
}

/// As `Tok`, over-aligned.
#[repr(align(64))]
pub struct Big(pub Tok);
impl Clone for Big {
    fn clone(&self) -> Self {
        Big(self.0.clone())
    }
}
impl PartialEq for Big {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Big {}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Hash for Big {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl fmt::Debug for Big {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl Elem for Big {
    const NAME: &'static str = "big";
    const UID: bool = true;
    const COUNTED: bool = true;
    fn rep(v: u32) -> u32 {
        v
    }
    fn make(v: u32) -> Self {
        Big(Tok::with(v))
    }
    fn val(&self) -> u32 {
        self.0.val
    }
    fn uid(&self) -> u64 {
        self.0.uid()
    }
    fn poke(&mut self, v: u32) {
        self.0.val = v;
    }
    fn dbg(v: u32) -> String {
        format!("{:?}", v)
    }
}

/// An element with an identity that its clones don't share, though it has no
/// destructor.
pub struct Nod {
    uid: u64,
    val: u32,
    magic: u32,
}
impl Nod {
    fn check(&self, what: &str) {
        if self.magic != MAGIC || !ledger().is_live(self.uid) {
            ledger().err(kind::GARBAGE, format!("{} on something that isn't an element", what));
        }
    }
}
impl Clone for Nod {
    fn clone(&self) -> Self {
        self.check("clone");
        tick(Tick::Clone);
        ledger().clones += 1;
        Nod::make(self.val)
    }
}
impl PartialEq for Nod {
    fn eq(&self, o: &Self) -> bool {
        self.check("eq");
        o.check("eq");
        tick(Tick::Eq);
        self.val == o.val
    }
}
impl Eq for Nod {}
impl PartialOrd for Nod {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Nod {
    fn cmp(&self, o: &Self) -> Ordering {
        self.check("cmp");
        o.check("cmp");
        tick(Tick::Cmp);
        self.val.cmp(&o.val)
    }
}
impl Hash for Nod {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check("hash");
        tick(Tick::Hash);
        self.val.hash(h)
    }
}
impl fmt::Debug for Nod {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.check("fmt");
        tick(Tick::Fmt);
        fmt::Debug::fmt(&self.val, f)
    }
}
impl Elem for Nod {
    const NAME: &'static str = "nod";
    const UID: bool = true;
    const COUNTED: bool = false;
    fn rep(v: u32) -> u32 {
        v
    }
    fn make(v: u32) -> Self {
        Nod { uid: ledger().fresh(), val: v, magic: MAGIC }
    }
    fn val(&self) -> u32 {
        self.val
    }
    fn uid(&self) -> u64 {
        if self.magic == MAGIC {
            self.uid
        } else {
            ledger().err(kind::GARBAGE, "something that isn't an element is exposed as one".into());
            u64::MAX
        }
    }
    fn poke(&mut self, v: u32) {
        self.val = v;
    }
    fn dbg(v: u32) -> String {
        format!("{:?}", v)
    }
}

/// A zero-sized element with a destructor.
pub struct Zst(());
impl Zst {
    fn fresh() -> Zst {
        let l = ledger();
        l.zst_live += 1;
        l.made += 1;
        l.events += 1;
        Zst(())
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        let l = ledger();
        l.zst_live -= 1;
        l.drops += 1;
        l.events += 1;
        if l.zst_live < 0 {
            l.err(kind::LEDGER, "more zero-sized elements dropped than made".into());
            return;
        }
        tick(Tick::Drop);
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        tick(Tick::Clone);
        ledger().clones += 1;
        Zst::fresh()
    }
}
impl PartialEq for Zst {
    fn eq(&self, _: &Self) -> bool {
        tick(Tick::Eq);
        true
    }
}
impl Eq for Zst {}
impl PartialOrd for Zst {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Zst {
    fn cmp(&self, _: &Self) -> Ordering {
        tick(Tick::Cmp);
        Ordering::Equal
    }
}
impl Hash for Zst {
    fn hash<H: Hasher>(&self, _: &mut H) {
        tick(Tick::Hash);
    }
}
impl fmt::Debug for Zst {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick(Tick::Fmt);
        f.write_str("z")
    }
}
impl Elem for Zst {
    const NAME: &'static str = "zst";
    const UID: bool = false;
    const COUNTED: bool = true;
    fn rep(_: u32) -> u32 {
        0
    }
    fn make(_: u32) -> Self {
        Zst::fresh()
    }
    fn val(&self) -> u32 {
        0
    }
    fn poke(&mut self, _: u32) {}
    fn dbg(_: u32) -> String {
        "z".into()
    }
}

macro_rules! plain {
    ($t:ty, $name:expr, $rep:expr, $make:expr, $val:expr, $dbg:expr) => {
        impl Elem for $t {
            const NAME: &'static str = $name;
            const UID: bool = false;
            const COUNTED: bool = false;
            fn rep(v: u32) -> u32 {
                ($rep)(v)
            }
            fn make(v: u32) -> Self {
                ($make)(v)
            }
            fn val(&self) -> u32 {
                ($val)(self)
            }
            fn poke(&mut self, v: u32) {
                *self = ($make)(v);
            }
            fn dbg(v: u32) -> String {
                ($dbg)(v)
            }
        }
    };
}

plain!(u8, "u8", |v: u32| v & 0xff, |v: u32| v as u8, |s: &u8| *s as u32, |v: u32| format!("{:?}", v as u8));
plain!(u32, "u32", |v: u32| v, |v: u32| v, |s: &u32| *s, |v: u32| format!("{:?}", v));
plain!(
    u128,
    "u128",
    |v: u32| v,
    |v: u32| (v as u128) * 0x1_0000_0001_0000_0001_0000_0001u128,
    |s: &u128| if *s == (*s as u32 as u128) * 0x1_0000_0001_0000_0001_0000_0001u128 { *s as u32 } else { u32::MAX },
    |v: u32| format!("{:?}", (v as u128) * 0x1_0000_0001_0000_0001_0000_0001u128)
);

/// Three bytes, alignment one: the last byte is a checksum.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct U3(pub u8, pub u8, pub u8);
impl fmt::Debug for U3 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.val(), f)
    }
}
plain!(
    U3,
    "u3",
    |v: u32| v & 0xffff,
    |v: u32| U3((v >> 8) as u8, v as u8, (v as u8) ^ ((v >> 8) as u8) ^ 0x5a),
    |s: &U3| if s.2 == s.0 ^ s.1 ^ 0x5a { (s.0 as u32) << 8 | s.1 as u32 } else { u32::MAX },
    |v: u32| format!("{:?}", v & 0xffff)
);

// ---------------------------------------------------------------- running calls

/// The result of a call: a value, or a panic of the code under test, or an
/// injected panic that came back out.
pub enum Res<T> {
    Ok(T),
    Panic,
}

impl<T> Res<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Res::Ok(t) => Some(t),
            Res::Panic => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
}

/// Make a call, observing a panic.
pub fn call<T>(f: impl FnOnce() -> T) -> Res<T> {
    STEP.fetch_add(1, AO::Relaxed);
    DEPTH.fetch_add(1, AO::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.fetch_sub(1, AO::Relaxed);
    match r {
        Ok(t) => Res::Ok(t),
        Err(p) => {
            drop(p);
            Res::Panic
        }
    }
}

static DEPTH: AtomicU64 = AtomicU64::new(0);
static STEP: AtomicU64 = AtomicU64::new(0);
static LAST_CASE: AtomicU64 = AtomicU64::new(0);

fn cpu_seconds() -> Option<f64> {
    let s = std::fs::read_to_string("/proc/self/stat").ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / 100.0)
}

/// A single call that uses `limit` seconds of processor time counts as not
/// terminating (calls take microseconds).
fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut step = STEP.load(AO::Relaxed);
        let mut since = cpu_seconds();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let s = STEP.load(AO::Relaxed);
            let now = cpu_seconds();
            if s != step || now.is_none() || since.is_none() {
                step = s;
                since = now;
            } else if now.unwrap() - since.unwrap() > limit {
                println!("\nHANG case={}", LAST_CASE.load(AO::Relaxed));
                let _ = std::io::stdout().flush();
                std::process::exit(4);
            }
        }
    });
}

// ---------------------------------------------------------------- the run

/// Everything about one run of an engine.
pub struct Run {
    pub args: Vec<(String, String)>,
    pub seed: u64,
    pub shard: usize,
    pub shards: usize,
    pub interest: u32,
    pub trace: bool,
    pub case: u64,
    pub only: Option<u64>,
    pub cases: u64,
    pub ops: u64,
    pub refused: u64,
    pub abandoned: u64,
    pub tainted: bool,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub digest: u64,
    pub digests: Option<Vec<u64>>,
    pub log: String,
    pub stop_after: u64,
    pub sample: u64,
    pub counts: std::collections::BTreeMap<String, u64>,
}

impl Run {
    pub fn from_args() -> Run {
        let mut args = Vec::new();
        for a in std::env::args().skip(1) {
            let (k, v) = match a.find('=') {
                Some(i) => (a[..i].to_string(), a[i + 1..].to_string()),
                None => (a, String::new()),
            };
            args.push((k, v));
        }
        let args2 = args.clone();
        let get = |k: &str| args2.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let num = |k: &str, d: u64| get(k).map(|v| v.parse::<u64>().unwrap_or_else(|_| die(&format!("bad {}", k)))).unwrap_or(d);
        let r = Run {
            seed: num("seed", 1),
            shard: num("shard", 0) as usize,
            shards: num("shards", 1) as usize,
            interest: get("interest").map(|s| kind::parse(&s)).unwrap_or(u32::MAX),
            trace: num("trace", 0) != 0,
            only: get("only").map(|v| v.parse().unwrap()),
            case: 0,
            cases: 0,
            ops: 0,
            refused: 0,
            abandoned: 0,
            tainted: false,
            distinct: HashSet::new(),
            samples: Vec::new(),
            digest: 0,
            digests: if get("digest").is_some() { Some(Vec::new()) } else { None },
            log: String::new(),
            stop_after: num("max", u64::MAX),
            sample: num("sample", 1),
            counts: Default::default(),
            args,
        };
        let trace = r.trace;
        std::panic::set_hook(Box::new(move |i| {
            if DEPTH.load(AO::Relaxed) == 0 {
                // Reading a container's length, or the like, should never panic.
                let file = i.location().map_or("", |l| l.file());
                if file.starts_with('/') && !file.contains("/library/") {
                    println!("\nPANIC case={} msg={}", LAST_CASE.load(AO::Relaxed), i.to_string().replace('\n', " "));
                    let _ = std::io::stdout().flush();
                    std::process::exit(6);
                }
                eprintln!("HARNESS-ERROR: {}", i);
                std::process::exit(5);
            } else if trace && i.payload().downcast_ref::<Injected>().is_none() {
                eprintln!("PANIC {}", i);
            }
        }));
        if r.num("noop", 0) != 0 {
            // Only to get it built.
            r.finish();
        }
        // (A race detector that doesn't know the standard library's threads
        // would complain of the watchdog.)
        if !cfg!(miri) && num("nodog", 0) == 0 {
            watchdog(num("oplimit", 20) as f64);
        }
        r
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.args.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|v| v.parse().unwrap_or_else(|_| die(&format!("bad {}", k)))).unwrap_or(d)
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }

    /// Start the next case; false if this shard skips it. `describe` is what a
    /// replay needs.
    pub fn begin(&mut self) -> bool {
        self.case += 1;
        if let Some(o) = self.only {
            if self.case != o {
                return false;
            }
        } else if self.case % self.shards as u64 != self.shard as u64 || self.cases >= self.stop_after {
            return false;
        }
        if self.only.is_none() && self.sample > 1 && mix(mix(self.seed, 77), self.case / self.shards as u64) % self.sample != 0 {
            return false;
        }
        LAST_CASE.store(self.case, AO::Relaxed);
        if cfg!(miri) || self.trace {
            eprintln!("CASE {}", self.case);
        } else {
            progress(self.case);
        }
        self.cases += 1;
        self.tainted = false;
        self.digest = 0;
        self.log.clear();
        ledger().reset();
        true
    }

    /// The case is over: log its digest.
    pub fn end(&mut self) {
        if self.tainted {
            self.abandoned += 1;
        }
        let d = self.digest;
        let c = self.case;
        if let Some(v) = &mut self.digests {
            v.push(c);
            v.push(d);
        }
        if self.samples.len() < 3 && self.cases % 977 == 1 && !self.log.is_empty() {
            let mut s = self.log.clone();
            if let Some((i, _)) = s.char_indices().nth(600) {
                s.truncate(i);
            }
            self.samples.push(s);
        }
    }

    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < 400_000 {
            self.distinct.insert(h);
        }
    }

    /// Report a violation. Does not return if it is of a kind that refutes the
    /// property being checked.
    pub fn violation(&mut self, k: Kinds, msg: &str) {
        if self.trace {
            eprintln!("OBSERVED {} {}", kind::names(k), msg);
        }
        if self.interest & k != 0 {
            println!("\nVIOL kind={} case={} msg={}", kind::names(k), self.case, msg.replace('\n', " "));
            println!("CASELOG {}", self.log.replace('\n', " ; "));
            self.finish_stats();
            let _ = std::io::stdout().flush();
            std::process::exit(3);
        }
        self.tainted = true;
    }

    /// Report what the ledger noticed by itself.
    pub fn ledger_errs(&mut self, at: &str) {
        let errs = std::mem::take(&mut ledger().errs);
        for (k, m) in errs {
            self.violation(k, &format!("{}: {}", at, m));
        }
    }

    fn finish_stats(&mut self) {
        let l = ledger();
        println!(
            "STATS cases={} ops={} refused={} abandoned={} distinct={} events={} made={} clones={} drops={} cmps={} nexts={} faults={}",
            self.cases,
            self.ops,
            self.refused,
            self.abandoned,
            self.distinct.len(),
            l.events,
            l.made,
            l.clones,
            l.drops,
            l.cmps,
            l.nexts,
            l.faults_fired
        );
        for (k, v) in &self.counts {
            println!("COUNT {}={}", k, v);
        }
        for s in &self.samples {
            println!("SAMPLE {}", s.replace('\n', " ; "));
        }
    }

    pub fn finish(mut self) -> ! {
        self.finish_stats();
        if let Some(p) = self.get("out") {
            let mut b = Vec::with_capacity(self.distinct.len() * 8);
            for h in &self.distinct {
                b.extend_from_slice(&h.to_le_bytes());
            }
            if std::fs::write(p, b).is_err() {
                die("cannot write coverage");
            }
        }
        if let (Some(p), Some(d)) = (self.get("digest"), &self.digests) {
            let mut b = Vec::with_capacity(d.len() * 8);
            for h in d {
                b.extend_from_slice(&h.to_le_bytes());
            }
            if std::fs::write(p, b).is_err() {
                die("cannot write digests");
            }
        }
        println!("DONE");
        let _ = std::io::stdout().flush();
        std::process::exit(0)
    }
}

/// How much of a case is written out (in Miri that would cost more than the
/// calls; a case that fails is run again with a trace).
pub const LOG: usize = if cfg!(miri) { 300 } else { 4000 };

fn progress(case: u64) {
    // Where a crash happened is found from here by the runner.
    use std::os::unix::fs::FileExt;
    static FILE: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    let f = FILE.get_or_init(|| {
        std::env::var("VH_PROGRESS").ok().and_then(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(p).ok())
    });
    if let Some(f) = f {
        let _ = f.write_at(&case.to_le_bytes(), 0);
    }
}

// ---------------------------------------------------------------- guard words

pub const GUARD: u64 = 0x5AFE_600D_5AFE_600D;

/// A container between guard words, on the heap.
#[repr(C)]
pub struct Guarded<C> {
    pre: [u64; 4],
    pub c: C,
    post: [u64; 4],
}

impl<C> Guarded<C> {
    pub fn new(c: C) -> Box<Self> {
        Box::new(Guarded { pre: [GUARD; 4], c, post: [GUARD; 4] })
    }
    pub fn intact(&self) -> bool {
        // Volatile, as no legal write can reach the guards.
        let p = &self.pre as *const u64;
        let q = &self.post as *const u64;
        (0..4).all(|i| unsafe { p.add(i).read_volatile() == GUARD && q.add(i).read_volatile() == GUARD })
    }
}

pub fn guarded_into<C>(b: Box<Guarded<C>>) -> C {
    let g = *b;
    g.c
}
