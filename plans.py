"""What each check runs: engines, builds, workloads, and which observations
refute the property."""

RULE = (
    "A case is one monitored history: containers are brought to a chosen state (contents, length and place in the storage), "
    "one or more calls are made on them and compared with a reference model, and the containers are then inspected and used up. "
    "Exhaustive cases enumerate every state and every call with every telling argument up to a small capacity; random cases are "
    "seeded histories at small and large capacities. Distinct means distinct (container, capacity, element, call, argument "
    "classes, state of the operands) as hashed when the call was made; calls on nothing and repeated calls don't count."
)
ASSUMPTIONS = [
    "What is reported held on the executions observed, on x86-64 Linux, with the installed compilers.",
    "The reference models (Vec, BTreeMap, plain byte vectors) and the element ledger in /verif/harness are right.",
]


def job(variant, binary, shards=None, same=None, interest=None, weight=None, **args):
    j = {"variant": variant, "bin": binary, "args": args}
    if shards:
        j["shards"] = shards
    if same:
        j["same"] = same
    if interest:
        j["interest"] = interest
    if weight:
        j["weight"] = weight
    return j


def scaled(t, quick, thorough):
    return quick if t == "quick" else thorough


# Groups of calls that make up ordinary use.
USE = "core,bulk,access,iter,view,copy"


def huge(t, **k):
    """Capacities near usize::MAX, of values without size. Only here: who rewrites index
    arithmetic rarely has them in mind."""
    return [] if t == "quick" else [job(v, "seq_oth", huge=1, elem="zst", mincap=3, maxcap=12, ex1=4, ex2=3, n=2000, ops=40, **k) for v in ("dbg", "rel")]


def c01(t):
    q = t == "quick"
    ex = dict(ex1=7, ex2=4) if q else dict(ex1=9, ex2=6)
    return [
        job("dbg", "seq_tok", of="chunk", groups=USE, n=scaled(t, 500, 20000), ops=40, misuse=3, **ex),
        job("rel", "seq_oth", of="chunk", groups=USE, n=scaled(t, 300, 10000), ops=40, misuse=3, ex1=scaled(t, 5, 9), ex2=scaled(t, 2, 4)),
        job("rel", "seq_u8", of="chunk", groups=USE, n=scaled(t, 500, 20000), ops=60, misuse=3, ex1=scaled(t, 6, 9), ex2=scaled(t, 3, 6)),
    ] + huge(t, of="chunk", groups=USE, misuse=3)


def c02(t):
    q = t == "quick"
    g = USE + ",sort"
    ex = dict(ex1=7, ex2=4) if q else dict(ex1=9, ex2=5)
    return [
        job("dbg", "seq_tok", of="ring", groups=g, n=scaled(t, 1500, 20000), ops=40, misuse=3, **ex),
        job("rel", "seq_oth", of="ring", groups=g, n=scaled(t, 300, 10000), ops=40, misuse=3, ex1=scaled(t, 4, 9), ex2=scaled(t, 2, 4)),
        job("rel", "seq_u8", of="ring", groups=g, n=scaled(t, 1500, 20000), ops=60, misuse=3, ex1=scaled(t, 6, 9), ex2=scaled(t, 3, 5)),
    ] + huge(t, of="ring", groups=g, misuse=3)


def c03(t):
    return [
        job("dbg", "sparse", ex1=scaled(t, 7, 10), ex2=scaled(t, 5, 7), ex3=200, n=scaled(t, 300, 10000), ops=40, misuse=3, groups=USE),
        job("rel", "sparse", ex1=scaled(t, 5, 8), ex2=scaled(t, 3, 5), ex3=1025, n=scaled(t, 300, 10000), ops=60, misuse=3, groups=USE),
    ]


def c04(t):
    return [
        job("dbg", "inline", ex1=scaled(t, 9, 12), ex2=scaled(t, 5, 9), n=scaled(t, 400, 10000), ops=40, misuse=3, groups=USE),
        job("rel", "inline", ex1=scaled(t, 7, 12), ex2=scaled(t, 3, 7), n=scaled(t, 400, 10000), ops=40, misuse=3, groups=USE),
    ]


ALL_SEQ = ["seq_tok", "seq_oth", "seq_u8"]


def c05(t):
    q = t == "quick"
    jobs = [
        job("asan", "seq_tok", ex1=4, ex2=3, sample=scaled(t, 4, 1), n=scaled(t, 50, 600), ops=30, misuse=20, weight=5),
        job("asan", "seq_u8", ex1=4, ex2=3, sample=scaled(t, 8, 1), n=scaled(t, 50, 600), ops=30, misuse=20, weight=5),
        job("asan", "sparse", ex1=4, ex2=3, sample=scaled(t, 1, 1), n=scaled(t, 50, 600), ops=30, misuse=20, weight=5),
        job("asan", "inline", ex1=5, ex2=3, sample=scaled(t, 4, 1), n=scaled(t, 50, 600), ops=30, misuse=20, weight=5),
    ]
    jobs += [
        job("miri", "lean", of="sparse", n=scaled(t, 6, 300), ops=20, weight=9),
        job("miri", "lean", of="chunk,ring,window,inl", n=scaled(t, 8, 500), ops=25),
        job("miri", "seq_tok", n=scaled(t, 1, 40), ops=8, mincap=1, maxcap=8, misuse=10, nokf=1),
        job("miri", "sparse", n=scaled(t, 1, 40), ops=8, mincap=2, maxcap=17, misuse=10, nokf=1),
        job("miri", "inline", n=scaled(t, 1, 40), ops=8, maxcap=20, misuse=10, nokf=1, news=0),
    ]
    if not q:
        for b in ["seq_tok", "sparse", "inline"]:
            jobs.append(job("miri", b, n=30, ops=16, maxcap=12, misuse=10, nokf=1, faults=1, news=0))
        jobs += [
            job("asanrel", "seq_tok", ex1=5, ex2=4, n=600, ops=40, misuse=20, weight=5),
            job("asanrel", "seq_oth", ex1=4, ex2=2, n=600, ops=40, misuse=20, weight=5),
            job("asanrel", "sparse", ex1=5, ex2=4, n=600, ops=40, misuse=20, weight=5),
            job("asanrel", "inline", ex1=6, ex2=4, n=600, ops=40, misuse=20, weight=5),
            job("asan", "arb", n=50, weight=5),
            job("asan", "pools", n=50, weight=5),
            job("asan", "stream", n=50, weight=5),
            job("miri", "rel"),
            job("miri", "arb", n=1),
            job("mirina", "pools", n=2, ops=20),
            job("miri32", "lean", of="sparse", n=30, ops=20, weight=9),
            job("miri32", "lean", of="chunk,ring,window,inl", n=60, ops=25),
            job("miri32", "seq_tok", n=4, ops=8, mincap=1, maxcap=8, misuse=30, nokf=1),
            job("miri32", "sparse", n=4, ops=8, mincap=2, maxcap=17, misuse=30, nokf=1),
            job("miri32", "arb", n=1),
            job("miri32", "stream", n=1),
        ]
    return jobs


def c06(t):
    return [
        job("dbg", "seq_tok", ex1=scaled(t, 5, 8), ex2=scaled(t, 3, 5), n=scaled(t, 300, 10000), ops=40),
        job("rel", "seq_oth", elem="big,zst", ex1=scaled(t, 4, 9), ex2=scaled(t, 2, 4), n=scaled(t, 100, 5000), ops=40),
        job("dbg", "sparse", elem="tok,big,zst", ex1=scaled(t, 6, 9), ex2=scaled(t, 4, 6), ex3=130, n=scaled(t, 200, 5000), ops=40),
        job("dbg", "inline", elem="tok,big,zst", ex1=scaled(t, 7, 10), ex2=scaled(t, 4, 7), n=scaled(t, 300, 10000), ops=40, news=0),
        job("dbg", "pools", n=scaled(t, 30, 1000)),
    ] + huge(t)


def c07(t):
    return [
        job("dbg", "seq_tok", faults=1, ex1=scaled(t, 6, 7), ex2=scaled(t, 3, 5), n=scaled(t, 1000, 10000), ops=40),
        job("rel", "seq_oth", faults=1, elem="big,zst", ex1=scaled(t, 4, 9), ex2=scaled(t, 2, 4), n=scaled(t, 100, 5000), ops=40),
        job("dbg", "sparse", faults=1, elem="tok,big,zst", ex1=scaled(t, 6, 9), ex2=scaled(t, 4, 6), ex3=scaled(t, 66, 130), n=scaled(t, 200, 5000), ops=40),
        job("dbg", "inline", faults=1, elem="tok,big,zst", ex1=scaled(t, 7, 10), ex2=scaled(t, 4, 7), n=scaled(t, 300, 10000), ops=40, news=0),
    ]


def c08(t):
    jobs = []
    for v in ("dbg", "rel"):
        s = scaled(t, 2, 1)
        jobs += [
            job(v, "seq_tok", misuse=50, ex1=scaled(t, 5, 8), ex2=scaled(t, 3, 5), sample=s, n=scaled(t, 200, 10000), ops=40),
            job(v, "sparse", misuse=50, ex1=scaled(t, 5, 8), ex2=scaled(t, 3, 5), ex3=130, sample=s, n=scaled(t, 200, 5000), ops=40),
            job(v, "inline", misuse=50, ex1=scaled(t, 6, 10), ex2=scaled(t, 4, 7), sample=s, n=scaled(t, 200, 10000), ops=40),
        ]
    jobs.append(job("rel", "seq_oth", misuse=50, ex1=scaled(t, 4, 9), ex2=scaled(t, 2, 4), n=scaled(t, 100, 5000), ops=40))
    return jobs


def c09(t):
    g = "bulk"
    return [
        job("dbg", "seq_tok", groups=g, ex1=9, ex2=scaled(t, 4, 5), n=scaled(t, 2000, 10000), ops=30, misuse=20),
        job("rel", "seq_tok", groups=g, ex1=9, ex2=scaled(t, 4, 5), n=scaled(t, 2000, 10000), ops=30, misuse=20),
        job("rel", "seq_oth", groups=g, ex1=9, ex2=scaled(t, 2, 4), n=scaled(t, 1000, 5000), ops=30, misuse=20),
        job("dbg", "inline", groups=g, ex1=9, ex2=3, n=scaled(t, 1500, 5000), ops=30, misuse=20, news=0),
        job("dbg", "sparse", groups=g, ex1=7, ex2=3, ex3=130, n=scaled(t, 1000, 5000), ops=30, misuse=20),
    ]


def c10(t):
    g = "core,iter"
    return [
        job("dbg", "seq_tok", groups=g, ex1=scaled(t, 7, 9), n=scaled(t, 300, 10000), ops=30),
        job("rel", "seq_oth", groups=g, ex1=scaled(t, 4, 9), n=scaled(t, 100, 5000), ops=30),
        job("dbg", "sparse", groups=g, ex1=scaled(t, 7, 10), ex3=scaled(t, 130, 1025), n=scaled(t, 200, 5000), ops=30),
        job("dbg", "inline", groups=g, ex1=scaled(t, 8, 12), n=scaled(t, 300, 10000), ops=30, news=0),
        job("rel", "seq_u8", groups=g, ex1=scaled(t, 5, 9), n=scaled(t, 300, 10000), ops=30),
    ]


def c11(t):
    g = "core,slice,sort"
    return [
        job("dbg", "seq_tok", of="ring", groups=g, ex1=scaled(t, 7, 8), ex2=scaled(t, 5, 5), n=scaled(t, 2000, 20000), ops=30, misuse=10),
        job("rel", "seq_oth", of="ring", groups=g, ex1=scaled(t, 4, 9), ex2=scaled(t, 2, 4), n=scaled(t, 200, 10000), ops=30, misuse=10),
        job("rel", "seq_u8", of="ring", groups=g, ex1=scaled(t, 7, 8), ex2=scaled(t, 5, 5), n=scaled(t, 2000, 20000), ops=30, misuse=10),
    ] + huge(t, of="ring", groups=g, misuse=10)


def c12(t):
    g, m = "iter,slice", "iter,slice,still"
    return [
        job("dbg", "seq_tok", groups=g, ex1=scaled(t, 6, 9), n=scaled(t, 200, 5000), ops=30),
        job("rel", "seq_oth", groups=g, ex1=scaled(t, 4, 9), n=scaled(t, 200, 5000), ops=30),
        job("dbg", "sparse", groups=g, ex1=scaled(t, 6, 9), ex3=scaled(t, 66, 1025), n=scaled(t, 200, 5000), ops=30),
        job("dbg", "inline", groups=g, ex1=scaled(t, 7, 10), n=scaled(t, 200, 5000), ops=30, news=0),
        job("mirisb", "lean", of="window", n=scaled(t, 20, 600), ops=20),
        job("mirisb", "lean", of="chunk,ring,sparse,inl", still=1, n=scaled(t, 8, 300), ops=8),
        job("mirisb", "seq_tok", groups=m, n=scaled(t, 2, 200), ops=10, mincap=1, maxcap=8, nokf=1),
        job("mirisb", "sparse", groups=m, elem="tok,big,zst", n=scaled(t, 1, 100), ops=8, mincap=2, maxcap=17, nokf=1),
        job("mirisb", "inline", groups=m, elem="tok,big,u8", n=scaled(t, 1, 60), ops=8, maxcap=20, nokf=1, news=0),
    ]


def c13(t):
    g = "core,rel,slice"
    return [
        job("dbg", "rel"),
        job("rel", "rel"),
        job("dbg", "seq_tok", groups=g, ex1=scaled(t, 5, 6), ex2=scaled(t, 6, 6), n=scaled(t, 2000, 10000), ops=30),
        job("rel", "seq_u8", groups=g, ex1=scaled(t, 5, 6), ex2=scaled(t, 6, 6), n=scaled(t, 2000, 10000), ops=30),
        job("dbg", "sparse", groups="core,rel", ex1=7, ex2=scaled(t, 5, 7), n=scaled(t, 2000, 10000), ops=30),
        job("dbg", "inline", groups="core,rel", ex1=8, ex2=8, n=scaled(t, 2000, 10000), ops=30, news=0),
    ]


def c14(t):
    g = "core,copy,bulk,layout"
    return [
        job("dbg", "seq_tok", groups=g, ex1=scaled(t, 6, 9), ex2=scaled(t, 5, 6), n=scaled(t, 1500, 10000), ops=30),
        job("rel", "seq_oth", groups=g, ex1=4, ex2=scaled(t, 2, 4), n=scaled(t, 100, 5000), ops=30),
        job("dbg", "sparse", groups=g, ex1=7, ex2=scaled(t, 5, 7), ex3=130, n=scaled(t, 1500, 10000), ops=30),
        job("dbg", "inline", groups=g, ex1=9, ex2=scaled(t, 5, 9), n=scaled(t, 1500, 10000), ops=30, news=0),
        job("rel", "inline", groups=g, ex1=9, ex2=scaled(t, 5, 9), n=scaled(t, 1500, 10000), ops=30, news=0),
    ]


def c15(t):
    return [
        job("dbg", "pools", n=scaled(t, 1500, 5000), ops=50),
        job("rel", "pools", n=scaled(t, 1500, 5000), ops=50),
        # Memory that was never written, and what is left of it.
        job("mirina", "pools", n=scaled(t, 1, 10), ops=scaled(t, 12, 30)),
        job("dbg", "seq_tok", groups="core,pool", ex1=scaled(t, 7, 9), ex2=scaled(t, 5, 7), n=scaled(t, 300, 5000), ops=30),
        job("dbg", "seq_oth", groups="core,pool", ex1=4, ex2=scaled(t, 2, 4), n=scaled(t, 100, 5000), ops=30),
        job("dbg", "sparse", groups="core,pool", ex1=7, ex2=scaled(t, 5, 7), ex3=1025, n=scaled(t, 200, 5000), ops=30),
    ]


def c16(t):
    return [
        job("dbg", "stream", n=scaled(t, 4000, 20000)),
        job("rel", "stream", n=scaled(t, 4000, 20000)),
        job("dbg", "seq_u8", groups="core,io,bulk", ex1=scaled(t, 9, 9), ex2=2, n=scaled(t, 3000, 20000), ops=60, misuse=3),
        job("rel", "seq_u8", groups="io", ex1=scaled(t, 9, 9), n=scaled(t, 3000, 20000), ops=60, misuse=3),
    ]


def c17(t):
    g = "core,layout"
    return [
        job("dbg", "inline", groups=g, ex1=scaled(t, 10, 12), ex2=scaled(t, 5, 6), n=scaled(t, 3000, 10000), ops=40),
        job("rel", "inline", groups=g, ex1=scaled(t, 10, 12), ex2=scaled(t, 5, 6), n=scaled(t, 3000, 10000), ops=40),
        job("miri32", "inline", groups=g, ex1=scaled(t, 0, 3), ex2=0, n=scaled(t, 1, 20), ops=scaled(t, 6, 20), nokf=1),
    ]


def c18(t):
    return [
        job("dbg", "arb", n=scaled(t, 4000, 20000)),
        job("rel", "arb", n=scaled(t, 4000, 20000)),
    ]


def c19(t):
    return [
        job("dbg", "seq_tok", ex1=scaled(t, 7, 9), ex2=scaled(t, 4, 6), n=scaled(t, 400, 10000), ops=40, groups="core,bulk,access,sort,iter"),
        job("rel", "seq_oth", elem="big", ex1=scaled(t, 4, 9), ex2=scaled(t, 2, 4), n=scaled(t, 200, 5000), ops=40, groups="core,bulk,access,sort,iter"),
        job("dbg", "inline", elem="tok,big", ex1=scaled(t, 8, 10), ex2=scaled(t, 4, 6), n=scaled(t, 300, 5000), ops=40, groups="core,bulk,access,iter", news=0),
        job("dbg", "sparse", elem="tok,big", ex1=6, ex2=4, n=scaled(t, 100, 5000), ops=40, groups="core,bulk,access,iter"),
    ]


def c20(t):
    g = "core,bulk,access,iter,view,copy,rel,slice,pool,sort,layout"
    jobs = []
    for v in ("dbg", "rel", "nostd", "nostdrel"):
        for b, a in (
            ("seq_tok", dict(ex1=scaled(t, 5, 7), ex2=scaled(t, 2, 4), n=scaled(t, 100, 5000))),
            ("sparse", dict(ex1=scaled(t, 5, 7), ex2=scaled(t, 3, 5), n=scaled(t, 60, 3000))),
            ("inline", dict(ex1=scaled(t, 6, 8), ex2=scaled(t, 3, 5), n=scaled(t, 100, 5000))),
        ):
            jobs.append(job(v, b, same=b, groups=g, misuse=15, ops=40, sample=scaled(t, 2, 1), **a))
    for v in ("dbg", "rel"):
        jobs.append(job(v, "seq_u8", same="u8", groups="core,io,bulk,slice,sort", misuse=15, ops=40, ex1=scaled(t, 5, 8), n=scaled(t, 200, 5000)))
    return jobs


def c21(t):
    g = "core,view,access,slice,sort"
    return [
        job("dbg", "seq_tok", groups=g, ex1=scaled(t, 7, 9), n=scaled(t, 1000, 10000), ops=40),
        job("rel", "seq_oth", groups=g, ex1=4, n=scaled(t, 100, 5000), ops=40),
        job("dbg", "sparse", groups=g, ex1=7, ex2=2, ex3=scaled(t, 130, 1025), n=scaled(t, 1000, 10000), ops=40),
        job("dbg", "inline", groups=g, ex1=9, n=scaled(t, 1000, 10000), ops=40, news=0),
    ]


def c22(t):
    return [
        job("dbg", "noalloc", n=scaled(t, 150, 5000), ops=60),
        job("rel", "noalloc", n=scaled(t, 150, 5000), ops=60),
        job("nostd", "noalloc", n=scaled(t, 50, 2000), ops=60),
    ] + ([] if t == "quick" else [job("miri32", "noalloc", n=2, ops=20)])


def c23(t):
    jobs = [
        job("tsan", "threads", shards=4, nodog=1, n=scaled(t, 40, 1000), weight=6),
        job("tsanrel", "threads", shards=4, nodog=1, n=scaled(t, 40, 1000), weight=6),
        job("rel", "threads", shards=4, n=scaled(t, 100, 3000), weight=3),
        job("miri", "threads", n=scaled(t, 1, 30)),
    ]
    return jobs


MODEL_RULE = "Each call's result, acceptance and every observable of the operands afterwards is compared with the model."

PLANS = {
    "C01": dict(jobs=c01, interest=["model"], rule="Calls on Chunk of capacities 0 to 257. " + MODEL_RULE),
    "C02": dict(jobs=c02, interest=["model"], rule="Calls on RingBuffer of capacities 0 to 257 at every rotation. " + MODEL_RULE),
    "C03": dict(jobs=c03, interest=["model"], rule="Calls on SparseChunk of capacities 1 to 1024. " + MODEL_RULE),
    "C04": dict(jobs=c04, interest=["model"], rule="Calls on 36 pairings of element and host type. " + MODEL_RULE),
    "C05": dict(jobs=c05, interest=["garbage", "canary"], hostile=["outlive", "twice", "thread"], rule="Every kind of safe call on every container, under AddressSanitizer (with elements that own heap memory) and in Miri; a sanitizer or Miri report, a crash, a changed guard word or an element without a valid identity refutes. Besides, hostile programs (hostile.py) are offered to the compiler, and what it accepts is run in Miri, as are their peaceful twins."),
    "C06": dict(jobs=c06, interest=["ledger", "garbage"], rule="Every element carries an identity; a ledger of births, deaths and owners is compared with the model after every call and at the end."),
    "C07": dict(jobs=c07, interest=["fault", "ledger", "garbage", "canary"], level="fault_enumeration", expect={"faults": 1000}, rule="As the k-th call of user code (Clone, Drop, comparison, Hash, Debug, closure, iterator) a panic is injected, for every k until none fires in exhaustive cases; then contents, ledger and usability are checked."),
    "C08": dict(jobs=c08, interest=["refuse"], expect={"refused": 10000}, rule="Half of the random calls, and the misuse part of the exhaustive ones, cannot be honoured; each must be refused and leave all contents as they were."),
    "C09": dict(jobs=c09, interest=["bulk"], rule="Iterators announce exact, short, long, inconsistent and absurd lengths."),
    "C10": dict(jobs=c10, interest=["iter"], rule="Each iterator is driven by patterns of front and back calls, with length announcements compared at every step."),
    "C11": dict(jobs=c11, interest=["slice"], rule="Windows of every start and end over every rotation, against array slices of the same range."),
    "C12": dict(jobs=c12, interest=["alias"], hostile=["twice"], rule="All mutable references of a borrow are held at once, their addresses compared, and each written and read back; the same in Miri under Stacked Borrows. Hostile programs that would hold two exclusive references at once are offered to the compiler, and what it accepts is run in Miri."),
    "C13": dict(jobs=c13, interest=["rel"], fatal=False, rule="All pairs of small contents in all placements are compared, ordered and hashed, also across types and with elements unequal to themselves."),
    "C14": dict(jobs=c14, interest=["copy"], rule="Copies are compared with the source, clones are counted, and both are then used and dropped independently."),
    "C15": dict(jobs=c15, interest=["pool"], expect={"recycled_slots": 500}, rule="Containers are made in raw memory holding leftovers, and in real pools with recycled slots."),
    "C16": dict(jobs=c16, interest=["io"], rule="Reads, writes and adaptors with buffers shorter and longer than what fits, mixed with other calls, against a byte queue."),
    "C17": dict(jobs=c17, interest=["layout"], rule="Sizes, capacities and addresses are compared with an independent formula; arrays are moved between calls; new() is tried for hosts that fit and that don't."),
    "C18": dict(jobs=c18, interest=["arb", "ledger", "garbage"], expect={"arbitrary_items": 10000}, rule="Byte strings (random, constant, ascending, short, long) make containers, compared with plain sequences made from the same bytes."),
    "C19": dict(jobs=c19, interest=["cost"], fatal=False, rule="Element addresses before and after every call give the relocations; clones and comparisons are counted."),
    "C20": dict(jobs=c20, interest=["model", "refuse"], rule="The same histories run in builds with and without debug assertions, optimisation and std; the digests of all results and contents are compared."),
    "C21": dict(jobs=c21, interest=["view"], rule="All views are read after calls and compared, contents and addresses; writes through one are looked for in the others."),
    "C22": dict(jobs=c22, interest=["heap"], expect={"elements_found_inside": 100000}, rule="A counting allocator is armed around each call; after it, containers are moved by copying their bytes to a new place (the old one is overwritten), and contents and element addresses are compared."),
    "C23": dict(jobs=c23, interest=["thread"], expect={"concurrent_reads": 10000}, hostile=["thread"], rule="Three threads make every call that a shared reference allows, at once, in different orders, and write disjoint parts at once, under ThreadSanitizer and in Miri; a container is changed by one thread after another and dropped by yet another; results are compared with those of a twin that never left its thread."),
}
