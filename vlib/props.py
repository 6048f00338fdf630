"""What each check runs: histories of the real code for the trace specifications, design models for TLC."""
import random
from vlib import designs
from vlib import gen
from vlib.gen import (rand_hist, grow_hist, phased_hist, bound_hist, lone_tag, BOUNDS, resources, archetypes, H, CAPS, SINGLES, subset, observe, rquery)
from vlib.shapes import SHAPES, N_SMALL, N_PERM, WIDE0, WIDE1, X0, X1, S0, S1, LONE, index, mustfit

FULL = {"c": 2, "k": 4, "a": 5, "r": 4, "s": 2, "d": 3, "t+": 2, "t-": 1, "oa": 2, "on": 1, "op": 1, "or": 1}


def ops(**w):
    d = dict(FULL)
    for k, v in w.items():
        d[k.replace("P", "+").replace("M", "-")] = v
    return d


STRUCT = ops(tP=0.5, tM=0.3, oa=0.5, on=0.3, op=0.3, **{"or": 0.3})
PH = {"C": 3, "D": 2, "A": 2, "R": 2, "T+": 1, "T-": 0.5, "OA": 0.5, "OR": 0.3}

WIDESETS = [SHAPES[i]["ids"] for i in range(WIDE0, WIDE1)]
WIDEQ = [i for i in range(WIDE0, WIDE1) if SHAPES[i]["q"]]
WSINGLE = [index([i])[0] for i in range(6, 18)]
XSETS = [SHAPES[i]["ids"] for i in range(X0, X1)]
XSINGLE = [index([i])[0] for i in (1, 2, 4, 6, 9, 10, 11, 14, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26) if index([i])]
XREP = sorted({SHAPES[i]["ids"][0] for i in XSINGLE})
# sets whose components fit their share of a page: entities can be created with them
XFIT = [s for s in XSETS if s in ([24], [24, 1], [26], [26, 11], [26, 11, 14], [21, 26, 24, 14], [17, 21], [4, 21],
                                  [11, 26, 17, 9], [2, 11], [10, 17], [21], [21, 1], [24, 21, 6], [25, 26, 1], [22, 4])]

ALLSTYLES = (0, 1, 2, 3, 4, 5, 6, 7, 8)
TINY = dict(comps=(46, 47, 48, 49, 1, 2, 3), idsets=[SHAPES[i]["ids"] for i in range(S0, S1)],
            report=[LONE[c] for c in (46, 47, 48, 49, 1, 2, 3)])
TINYQ = list(range(S0, S1))


def R(ck, n):
    return [random.Random("%s/%d/%d" % (ck.pid, ck.seed, i)) for i in range(n)]


def scale(ck, q, t):
    return t if ck.thorough else q


def several(ck, tag, n, f):
    return [f(random.Random("%s/%s/%d/%d" % (ck.pid, tag, ck.seed, i)), "%s%d" % (tag, i)) for i in range(n)]


def bounds(ck, rel, obs, share=0.4, **kw):
    """histories around every capacity boundary; quick: a share of the capacities per build"""
    out = []
    for rep in range(scale(ck, 1, 6)):
        r = random.Random("%s/bound/%d/%d/%s" % (ck.pid, ck.seed, rep, rel))
        for c in BOUNDS:
            key = c in (1, 2, 31, 32, 33, 34, 64, 65, 97, 129)
            if key or ck.thorough or r.random() < share:
                out.append(bound_hist(random.Random("%s/b/%d/%d/%d/%s" % (ck.pid, ck.seed, c, rep, rel)),
                                      "bound%d_%d" % (c, rep), c, obs, **kw))
    return out


def lone(ck, rel, share=0.4):
    out = []
    r = random.Random("%s/lone/%d/%s" % (ck.pid, ck.seed, rel))
    for c in BOUNDS:
        if ck.thorough or c in (1, 31, 32, 33, 63, 64, 65, 97) or r.random() < share:
            out.append(lone_tag(r, "lone%d" % c, c))
    return out


# ------------------------------------------------------------------ store properties (StoreTrace)

def c02(ck, rel):
    o = ("alive",)
    k = scale(ck, 3, 30)
    hs = several(ck, "rand", 60 * k, lambda r, n: rand_hist(r, n, ops(d=4, x=0 if rel else 0.5), o, 60, maxlive=9))
    hs += several(ck, "grow", 12 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 130, ["k", "a", "r", "t+", "oa"],
                                                        destroy=0.3))
    hs += several(ck, "bulk", 6 * k, lambda r, n: phased_hist(r, n, o, 14, 300, PH, maxn=1500))
    hs += several(ck, "big", 1 * k, lambda r, n: phased_hist(r, n, o, 8, 9000, {"C": 3, "D": 3}, single=False))
    hs += bounds(ck, rel, o, 0.6)
    hs += several(ck, "reuse", 2 * k, long_reuse)
    hs += several(ck, "over", 8 * k, lambda r, n: refused_creates(r, n, o))
    return hs


def long_reuse(r, name):
    """one id used again and again, with old handles kept"""
    h = H(r, name, r.choice((1, 2, 10)))
    for _ in range(r.randint(1, 3)):
        h.k(subset(r, (1, 2)))
    if r.random() < 0.5:
        h.k([1])
    for j in range(3):
        t = h.alive[-1] if r.random() < 0.5 else r.choice(h.alive)
        h.d(t)
        z = r.random()
        if z < 0.3:
            h.out("U", r.choice((254, 255, 256, 511, 1023)))
        elif z < 0.6:
            h.out("U", r.choice((65534, 65535, 65536, 32767, 32768, 131071)))
        else:
            # 2^k - 1 uses of the id later the counter has the same low bits
            h.out("U", 65535)
        h.out("alive")
        h.k([1])
        h.out("alive")
        for x in h.dead[-2:]:
            h.a(x, [2])
            h.tag(x, 1, True)
            h.oa(1, x)
        observe(h, ("alive", "arch", "vals", "tags", "ord"), (1, 2), r)
    return h.hist()


def ends(h):
    return (h[0], h[1], h[2], h[3] + ["end"])


def refused_bulk(r, name, obs, rel):
    """destructions refused in a store of many entities"""
    h = H(r, name, r.choice((1, 32, 33, 100)))
    lo, hi = h.C(r.randint(30, 120), r.choice(([1], [1, 2], [4], [5])))
    h.T(lo, hi, 2, 1)
    h.OA(1, lo, hi, 3)
    for _ in range(6):
        a = r.randint(1, h.n)
        b = min(h.n, a + r.randint(0, 9))
        dead = [t for t in range(a, b + 1) if t not in h.comps]
        for t in range(a, b + 1):
            if t in h.comps:
                h.d(t)
        for t in ([] if rel else h.dead[-3:] + [r.choice(h.dead)]):
            h.out("d", t)
        for _ in range(r.randint(0, 4)):
            h.k(r.choice(([1], [1, 2], [4])))
        for t in ([] if rel else h.dead[-3:]):
            h.out("d", t)
        h.touched += h.dead[-4:]
        observe(h, obs, (1, 2, 4), r, None, 20)
    return h.hist()


def refused_creates(r, name, obs, endobs=()):
    """creations that are refused because the components do not fit in a page"""
    return rand_hist(r, name, ops(kx=r.choice((1, 5, 12)), c=3), obs, 60, maxlive=r.choice((2, 8, 20)), endobs=endobs,
                     q=dict(kinds="c"))


def refused_cycles(r, name):
    h = H(r, name, r.choice((1, 2, 10)))
    h.k([1])
    for i in range(6):
        for _ in range(40):
            h.kx()
            t = h.c() if r.random() < 0.5 else h.k([1])
            h.kx()
            h.d(t)
        h.out("mem", 1 if i == 0 else 0)
    return h.hist()


def refused_orders(r, name, rel):
    """refused insertions into long groups"""
    h = H(r, name, r.choice((1, 33, 100)))
    lo, hi = h.C(r.randint(40, 90))
    h.OA(1, lo, hi, r.choice((1, 2)))
    h.OA(2, lo, hi, 3)
    for _ in range(25):
        g = r.choice((1, 2))
        mem = h.order[g]
        free = [t for t in h.alive if t not in mem]
        z = r.random()
        if z < 0.5 and not rel and mem:
            t = r.choice((mem[0], mem[-1], r.choice(mem)))
            o = r.random()
            if o < 0.4:
                h.oa(g, t)
            elif o < 0.8:
                h.oplace(r.random() < 0.5, g, t, r.choice((t, mem[0], mem[-1], r.choice(mem))))
            elif free:
                h.oplace(r.random() < 0.5, g, r.choice(free), r.choice(free))
        elif z < 0.7 and mem:
            h.orem(g, r.choice((mem[0], mem[-1], r.choice(mem))))
        elif z < 0.9 and free and mem:
            h.oplace(r.random() < 0.5, g, r.choice(free), r.choice((mem[0], mem[-1], r.choice(mem))))
        elif z < 0.95:
            h.d(r.choice(h.alive))
        else:
            h.c()
        observe(h, ("ord",), (1,), r, None, 12, 3, 2)
    return h.hist()


def other_store(r, name):
    """kept query objects are used on another store in between; groups and tags may not exist in this one"""
    h = H(r, name, r.choice(CAPS))
    cs = r.choice(((1, 2), (1, 2, 3), (3, 4, 5)))
    groups = r.random() < 0.5
    for _ in range(r.randint(0, 5)):
        h.k(subset(r, cs))
    for i in range(12):
        z = r.random()
        if z < 0.3 or not h.alive:
            h.k(subset(r, cs))
        elif z < 0.4:
            h.d(r.choice(h.alive))
        elif z < 0.6:
            h.a(r.choice(h.alive), subset(r, cs))
        elif z < 0.7:
            h.r(r.choice(h.alive), subset(r, cs))
        elif groups or i > 8:
            t = r.choice(h.alive)
            if t not in h.order[1]:
                h.oa(1, t)
        for _ in range(2):
            rquery(h, cs, kinds="cloo", persist=1, part=0.3, modes="RW")
        h.out("F", r.randint(0, 999), r.randint(0, 7))
        for _ in range(3):
            rquery(h, cs, kinds="cloo", persist=1, part=0.1, modes="RW")
    return h.hist()


def c03(ck, rel):
    o = ("alive", "vals", "tags", "ord", "arch")
    k = scale(ck, 3, 30)
    w = ops(x=0 if rel else 9, d=4)
    hs = several(ck, "rand", 60 * k, lambda r, n: rand_hist(r, n, w, o, 50, maxlive=7, refuse=False, q=None))
    hs += several(ck, "few", 40 * k, lambda r, n: rand_hist(r, n, ops(x=0 if rel else 12, d=6), o, 40, maxlive=3,
                                                       comps=(1, 2)))
    hs += several(ck, "q", 20 * k, lambda r, n: rand_hist(r, n, w, o + ("q",), 40, maxlive=8, q=dict(filt=0.3)))
    hs += several(ck, "bulk", 4 * k, lambda r, n: refused_bulk(r, n, o, rel))
    return hs


def c04(ck, rel):
    o = ("arch",)
    k = scale(ck, 3, 30)
    hs = several(ck, "rand", 90 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 70, maxlive=8))
    hs += several(ck, "one", 20 * k, lambda r, n: rand_hist(r, n, ops(a=8, r=8), o, 70, maxlive=2))
    hs += several(ck, "wide", 12 * k, lambda r, n: rand_hist(
        r, n, STRUCT, o, 60, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE))
    hs += several(ck, "arch", 6 * k, lambda r, n: rand_hist(
        r, n, ops(a=9, r=5), o, 160, maxlive=20, comps=range(6, 18), idsets=[[i] for i in range(6, 18)], report=WSINGLE,
        every=10))
    hs += several(ck, "grow", 6 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 80, ["k", "a", "r", "s"], destroy=0.3))
    hs += several(ck, "bulk", 8 * k, lambda r, n: phased_hist(r, n, o, 14, 60, PH, sample=60))
    hs += bounds(ck, rel, o, 0.2, tags=False, orders=False)
    hs += several(ck, "over", 8 * k, lambda r, n: refused_creates(r, n, o))
    return hs


def c05(ck, rel):
    o = ("vals", "get")
    k = scale(ck, 3, 30)
    hs = several(ck, "rand", 80 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 70, maxlive=8))
    hs += several(ck, "page", 30 * k, lambda r, n: rand_hist(r, n, ops(k=8, d=4), o, 110, maxlive=34, comps=(3, 4, 5),
                                                        every=4))
    hs += several(ck, "wide", 10 * k, lambda r, n: rand_hist(
        r, n, STRUCT, o, 60, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE))
    hs += several(ck, "x", 10 * k, lambda r, n: rand_hist(
        r, n, STRUCT, ("vals",), 60, comps=XREP, idsets=XSETS, cidsets=XFIT, report=XSINGLE))
    hs += several(ck, "arch", 6 * k, lambda r, n: rand_hist(
        r, n, ops(a=9, r=5), ("vals",), 140, maxlive=20, comps=range(6, 18), idsets=[[i] for i in range(6, 18)],
        report=WSINGLE, every=8))
    hs += several(ck, "grow", 6 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 80, ["k", "a", "r", "s"], destroy=0.3))
    hs += several(ck, "bulk", 10 * k, lambda r, n: phased_hist(r, n, o, 16, 120, PH, sample=60))
    hs += bounds(ck, rel, ("vals",), 0.2)
    hs += several(ck, "dense", 8 * k, lambda r, n: phased_hist(r, n, ("vals",), 10, 300, PH, comps=(1, 2, 5), maxn=900, sample=40,
                                                          single=12))
    hs += several(ck, "over", 8 * k, lambda r, n: refused_creates(r, n, o))
    hs += several(ck, "tiny", 12 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 60, maxlive=r.choice((6, 20)), every=2, **TINY))
    hs += several(ck, "tinyd", 4 * k, lambda r, n: phased_hist(r, n, ("vals",), 10, 300, PH, comps=r.choice(((46, 48), (46, 47), (49, 46), (46, 1), (2, 46))), maxn=900,
                                                          sample=40, single=12))
    return hs


def c06(ck, rel):
    o = ("addr",)
    k = scale(ck, 3, 30)
    hs = several(ck, "rand", 50 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 60, maxlive=10))
    hs += several(ck, "page", 20 * k, lambda r, n: rand_hist(r, n, ops(k=8, d=4), o, 110, maxlive=34, comps=(3, 4, 5),
                                                        every=5))
    hs += several(ck, "wide", 15 * k, lambda r, n: rand_hist(
        r, n, STRUCT, o, 50, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE))
    hs += several(ck, "x", 30 * k, lambda r, n: rand_hist(
        r, n, STRUCT, o, 60, comps=XREP, idsets=XSETS, cidsets=XFIT, report=XSINGLE))
    hs += several(ck, "bulk", 8 * k, lambda r, n: phased_hist(r, n, o, 10, 700, PH, sample=None, maxn=900, every=3))
    hs += full_pages(ck, o)
    hs += several(ck, "fill", 3 * k, lambda r, n: fill_hist(r, n, o))
    hs += several(ck, "mixed", 60 * k, lambda r, n: mixed_hist(r, n, o))
    hs += several(ck, "tiny", 12 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 60, maxlive=r.choice((6, 20)), every=3, **TINY))
    return hs


def full_pages(ck, obs):
    """every shape: fill at least two pages and look at all of it"""
    out = []
    from vlib.shapes import layout
    for i, x in enumerate(SHAPES):
        ids = x["ids"]
        cap = layout(ids)
        r = random.Random(i)
        h = H(r, "shape%d" % i, 10)
        xs = [index([c])[0] for c in ids if index([c])]
        h.out("comps", *xs)
        if cap > 700:
            k = cap + 2 if i % 5 == 0 else 40
        else:
            k = max(4, cap + 3)
        if i >= X0 and ids not in XFIT and not (i >= X1 and mustfit(ids)):
            # refused or not: the specification says which are sure to be accepted
            for _ in range(4):
                h.c()
                h.a(h.n, ids, i)
        else:
            h.C(k, ids, i)
        if k <= 60:
            observe(h, obs, ids, r)
        else:
            h.out("addr", *sorted(set(list(range(1, 20)) + list(range(k // 2, k // 2 + 20)) + list(range(k - 30, k + 1)))))
        out.append(h.hist())
    return out


def mixed_hist(r, name, obs):
    """component sets put together one by one from all the types there are; refused where they may be"""
    h = H(r, name, r.choice((1, 10)))
    few = r.random() < 0.4
    pool = r.sample((36, 37, 38, 39, 40, 41, 42, 43, 22, 44, 45) if few else sorted(LONE), r.randint(3, 8 if few else 12))
    h.out("comps", *[LONE[c] for c in pool])
    for _ in range(r.randint(2, 4)):
        ids = r.sample(pool, r.randint(2, min(len(pool), 7)))
        for _ in range(r.randint(1, 5)):
            h.c()
            t, have = h.n, set()
            for c in r.sample(ids, len(ids)):
                if mustfit(have | {c}):
                    h.a(t, [c], LONE[c])
                    have.add(c)
                else:
                    h.out("a", t, LONE[c])
            if r.random() < 0.2:
                c = r.choice(ids)
                h.r(t, [c], LONE[c])
            if r.random() < 0.15 and len(h.alive) > 1:
                h.d(r.choice(h.alive))
        observe(h, obs, ids, r)
    return h.hist()


def fill_hist(r, name, obs):
    """pages filled, emptied and taken over by other component sets"""
    h = H(r, name, 10)
    h.out("comps", *XSINGLE)
    for _ in range(6):
        ids = r.choice(XFIT + [[4], [1, 2], [1, 4]])
        lo, hi = h.C(r.randint(3, 25), ids)
        observe(h, obs, ids, r)
        h.D(lo, hi, 1) if r.random() < 0.7 else h.D(lo, lo + (hi - lo) // 2, 1)
    return h.hist()


def c07(ck, rel):
    o = ("q", "q", "q")
    k = scale(ck, 3, 30)
    q = dict(kinds="c")
    hs = several(ck, "rand", 90 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 70, maxlive=8, q=q))
    hs += several(ck, "page", 20 * k, lambda r, n: rand_hist(r, n, ops(k=8, d=4), o, 90, maxlive=30, comps=(3, 4, 5), every=4,
                                                        q=q))
    hs += several(ck, "wide", 12 * k, lambda r, n: rand_hist(
        r, n, STRUCT, o, 60, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE, q=dict(kinds="c", shapes=WIDEQ)))
    hs += several(ck, "bulk", 12 * k, lambda r, n: phased_hist(r, n, o, 12, 300, PH, q=dict(kinds="c", ents=1), maxn=1200))
    hs += several(ck, "fresh", 20 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 50, maxlive=5, q=dict(kinds="c", persist=1, ents=1)))
    hs += bounds(ck, rel, o, 0.1, q=q, tags=False, orders=False)
    hs += several(ck, "over", 8 * k, lambda r, n: refused_creates(r, n, o))
    hs += several(ck, "tiny", 10 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 60, maxlive=r.choice((6, 20)), every=2,
                                                        q=dict(kinds="c", shapes=TINYQ, ents=1), **TINY))
    return hs


def c08(ck, rel):
    o = ("vals", "q", "get")
    k = scale(ck, 3, 30)
    q = dict(write=0.8, modes="WXR", filt=0.1)
    hs = several(ck, "rand", 70 * k, lambda r, n: rand_hist(r, n, ops(s=6), o, 50, maxlive=8, q=q))
    hs += several(ck, "page", 14 * k, lambda r, n: rand_hist(r, n, ops(k=8, s=8), o, 90, maxlive=30, comps=(3, 4, 5), every=5,
                                                        q=q))
    hs += several(ck, "wide", 12 * k, lambda r, n: rand_hist(
        r, n, STRUCT, o, 50, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE,
        q=dict(write=0.8, modes="WXR", shapes=WIDEQ)))
    hs += several(ck, "ord", 15 * k, lambda r, n: rand_hist(r, n, ops(oa=6, on=3, op=3), o, 50, maxlive=8,
                                                       q=dict(write=0.8, modes="WX", kinds="ol")))
    hs += several(ck, "dense", 10 * k, lambda r, n: phased_hist(r, n, ("vals", "q", "vals"), 10, 300, PH, comps=(1, 2, 5),
                                                           maxn=700, sample=40, single=14, q=dict(write=0.8, modes="WXR")))
    hs += several(ck, "bulk", 5 * k, lambda r, n: phased_hist(r, n, ("q", "vals"), 10, 120, PH, maxn=700, sample=60, single=8, q=q))
    hs += several(ck, "tiny", 12 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 50, maxlive=r.choice((6, 20)), every=2,
                                                        q=dict(write=0.8, modes="WXR", shapes=TINYQ, ents=1), **TINY))
    hs += several(ck, "tinyd", 4 * k, lambda r, n: phased_hist(r, n, ("vals", "q", "vals"), 10, 300, PH, comps=r.choice(((46, 48), (46, 47), (49, 46), (46, 1), (2, 46))),
                                                          maxn=700, sample=40, single=14, q=dict(write=0.8, modes="WXR", ents=1)))
    return hs


def c09(ck, rel):
    o = ("tags",)
    k = scale(ck, 3, 30)
    w = {"c": 3, "k": 2, "d": 2, "a": 1, "r": 1, "t+": 8, "t-": 4, "oa": 0.5, "or": 0.3}
    hs = several(ck, "rand", 60 * k, lambda r, n: rand_hist(r, n, w, o, 70, maxlive=9))
    hs += several(ck, "many", 20 * k, lambda r, n: rand_hist(r, n, w, o, 70, maxlive=9, ntags=40, every=3))
    hs += several(ck, "grow", 16 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 140, ["k", "c", "t+", "t+", "t-"],
                                                        destroy=0.2, ntags=r.choice((3, 40))))
    hs += several(ck, "bulk", 8 * k, lambda r, n: phased_hist(r, n, o, 16, 400, {"C": 3, "D": 2, "T+": 4, "T-": 2, "A": 0.3},
                                                         sample=80, ntags=3))
    hs += several(ck, "stale", 15 * k, lambda r, n: rand_hist(r, n, w, o, 50, maxlive=5, stale=0.2))
    hs += bounds(ck, rel, o, 0.6, orders=False)
    hs += bounds(ck, rel, o, 0.05, orders=False, ntags=40)
    return hs


def c10(ck, rel):
    o = ("q", "q")
    k = scale(ck, 2, 25)
    q = dict(kinds="c", filt=1.0)
    w = ops(tP=8, tM=4)
    hs = several(ck, "rand", 80 * k, lambda r, n: rand_hist(r, n, w, o, 60, maxlive=10, q=q, ntags=2))
    hs += several(ck, "sparse", 25 * k, lambda r, n: rand_hist(r, n, ops(tP=1, tM=0.5, k=8), o, 70, maxlive=34, q=q, ntags=2,
                                                          comps=(1, 4, 5), every=3))
    hs += several(ck, "late", 15 * k, lambda r, n: rand_hist(r, n, ops(tP=0.1, tM=0.1), o, 50, maxlive=10, q=q, ntags=2))
    hs += several(ck, "grow", 8 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 100, ["k", "t+", "t-", "a", "r"],
                                                       destroy=0.2, ntags=2, q=q))
    hs += several(ck, "bulk", 10 * k, lambda r, n: phased_hist(r, n, o, 14, 400, {"C": 3, "D": 2, "T+": 2, "T-": 1, "A": 1,
                                                                             "R": 1}, q=q, maxn=1500))
    hs += several(ck, "huge", 1 if not ck.thorough else 4, untagged)
    hs += lone(ck, rel, 0.6)
    hs += bounds(ck, rel, o, 0.1, orders=False, q=q)
    return hs


def untagged(r, name):
    """very many entities without the tag between few with it"""
    h = H(r, name, 100)
    n = 40000
    h.C(n, [1])
    for t in sorted(r.sample(range(1, n + 1), 3)) + [n]:
        h.out("t+", t, 1)
    sh = index([1], True)[0]
    for m in "RWX":
        h.q("c", m, sh, 1, 1)
    h.q("c", "R", sh, 1, 2)
    h.D(1, n // 2, 1)
    h.q("c", "W", sh, 1, 1)
    return h.hist()


OW = {"c": 3, "k": 1, "d": 2, "a": 1, "r": 1, "t+": 0.3, "oa": 6, "on": 5, "op": 5, "or": 4}


def c11(ck, rel):
    o = ("ord",)
    k = scale(ck, 3, 30)
    hs = several(ck, "rand", 90 * k, lambda r, n: rand_hist(r, n, OW, o, 80, maxlive=8))
    hs += several(ck, "one", 30 * k, lambda r, n: rand_hist(r, n, OW, o, 60, maxlive=4, groups=1))
    hs += several(ck, "six", 12 * k, lambda r, n: rand_hist(r, n, OW, o, 80, maxlive=8, groups=6, every=3))
    hs += several(ck, "many", 4 * k, lambda r, n: rand_hist(r, n, dict(OW, oa=12), o, 160, maxlive=8, groups=r.choice((9, 17, 40)), every=20))
    hs += several(ck, "manyg", 2 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 60, ["c", "oa", "on", "op", "or", "oa", "oa"],
                                                        destroy=0.2, groups=r.choice((9, 17, 40))))
    hs += several(ck, "grow", 14 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 130,
                                                        ["c", "oa", "on", "op", "or", "oa", "on"], destroy=0.2))
    hs += several(ck, "bulk", 8 * k, lambda r, n: phased_hist(r, n, o, 16, 200, {"C": 3, "D": 2, "OA": 5, "OR": 2},
                                                         sample=40))
    hs += bounds(ck, rel, o, 0.5, tags=False)
    return hs


def c12(ck, rel):
    o = ("ord",)
    k = scale(ck, 3, 30)
    f = not rel
    hs = several(ck, "rand", 90 * k, lambda r, n: rand_hist(r, n, OW, o, 80, maxlive=7, refuse=f))
    hs += several(ck, "one", 60 * k, lambda r, n: rand_hist(r, n, OW, o, 50, maxlive=3, groups=1, refuse=f))
    hs += several(ck, "two", 30 * k, lambda r, n: rand_hist(r, n, OW, o, 60, maxlive=5, groups=2, refuse=f))
    hs += several(ck, "rec", 30 * k, lambda r, n: rand_hist(r, n, dict(OW, d=5), o, 60, maxlive=5, groups=2, refuse=f))
    hs += several(ck, "many", 4 * k, lambda r, n: rand_hist(r, n, dict(OW, oa=12), o, 160, maxlive=6, groups=r.choice((9, 17, 40)),
                                                       every=20, refuse=f))
    hs += several(ck, "bulk", 5 * k, lambda r, n: refused_orders(r, n, rel))
    return hs


def c13(ck, rel):
    o = ("q", "q")
    k = scale(ck, 3, 30)
    q = dict(kinds="o")
    w = ops(oa=6, on=4, op=4, **{"or": 2})
    hs = several(ck, "rand", 90 * k, lambda r, n: rand_hist(r, n, w, o, 70, maxlive=9, q=q, groups=2))
    hs += several(ck, "page", 20 * k, lambda r, n: rand_hist(r, n, dict(w, k=9), o, 90, maxlive=30, comps=(3, 4, 5), every=4,
                                                        q=q, groups=2))
    hs += several(ck, "many", 5 * k, lambda r, n: rand_hist(r, n, dict(w, k=6, oa=20), o, 150, maxlive=12, every=3, q=q,
                                                       groups=r.choice((9, 17, 40))))
    hs += several(ck, "wide", 10 * k, lambda r, n: rand_hist(
        r, n, w, o, 60, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE, groups=2, q=dict(kinds="o", shapes=WIDEQ)))
    hs += several(ck, "grow", 10 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 100, ["k", "oa", "on", "op", "a", "r"],
                                                        destroy=0.2, q=q))
    hs += several(ck, "bulk", 8 * k, lambda r, n: phased_hist(r, n, o, 14, 150, {"C": 3, "D": 1.5, "OA": 4, "OR": 1, "A": 2,
                                                                            "R": 2}, q=dict(kinds="o", ents=1)))
    hs += bounds(ck, rel, o, 0.3, tags=False, q=q)
    hs += several(ck, "tiny", 8 * k, lambda r, n: rand_hist(r, n, w, o, 60, maxlive=r.choice((6, 20)), every=2, groups=2,
                                                       q=dict(kinds="o", shapes=TINYQ), **TINY))
    return hs


def c14(ck, rel):
    o = ("q", "q")
    k = scale(ck, 3, 30)
    q = dict(kinds="l")
    hs = several(ck, "rand", 110 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 60, maxlive=8, q=q))
    hs += several(ck, "rec", 30 * k, lambda r, n: rand_hist(r, n, ops(d=6, k=8), o, 60, maxlive=5, q=q))
    hs += several(ck, "page", 20 * k, lambda r, n: rand_hist(r, n, ops(k=8, d=4), o, 90, maxlive=30, comps=(3, 4, 5), every=4,
                                                        q=q))
    hs += several(ck, "wide", 10 * k, lambda r, n: rand_hist(
        r, n, STRUCT, o, 60, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE, q=dict(kinds="l", shapes=WIDEQ)))
    hs += several(ck, "grow", 6 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 80, ["k", "a", "r"], destroy=0.3, q=q))
    hs += bounds(ck, rel, o, 0.1, tags=False, orders=False, q=q)
    hs += several(ck, "bulk", 6 * k, lambda r, n: phased_hist(r, n, o, 12, 150, PH, maxn=500, q=q))
    hs += several(ck, "tiny", 8 * k, lambda r, n: rand_hist(r, n, STRUCT, o, 60, maxlive=r.choice((6, 20)), every=2,
                                                       q=dict(kinds="l", shapes=TINYQ), **TINY))
    return hs


def c15(ck, rel):
    o = ("alive", "arch", "vals", "tags", "ord", "get")
    k = scale(ck, 2, 25)
    w = ops(d=5, c=4, k=3)
    hs = several(ck, "rand", 90 * k, lambda r, n: rand_hist(r, n, w, o, 45, maxlive=5, stale=0.45))
    hs += several(ck, "two", 40 * k, lambda r, n: rand_hist(r, n, w, o, 40, maxlive=2, stale=0.5, comps=(1, 2)))
    hs += several(ck, "q", 20 * k, lambda r, n: rand_hist(r, n, w, o + ("q",), 40, maxlive=5, stale=0.4,
                                                     q=dict(filt=0.3)))
    hs += several(ck, "gap", 20 * k, stale_gap)
    hs += several(ck, "wide", 10 * k, lambda r, n: rand_hist(
        r, n, w, ("arch", "vals", "get"), 45, maxlive=5, stale=0.4, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE))
    hs += several(ck, "reuse", 2 * k, long_reuse)
    return hs


def stale_gap(r, name):
    """stale handles while the id is free, then the next user of the id is looked at"""
    h = H(r, name, r.choice(CAPS))
    for _ in range(r.randint(2, 5)):
        h.k(subset(r, (1, 2, 3)))
    for _ in range(8):
        t = r.choice(h.alive)
        h.tag(t, 1, True)
        if t not in h.order[1]:
            h.oa(1, t)
        h.d(t)
        for _ in range(r.randint(1, 3)):
            z = r.choice(("a", "r", "t+", "t-", "oa", "or", "s"))
            x = r.choice(h.dead)
            if z == "a":
                h.a(x, subset(r, (1, 2, 3)))
            elif z == "r":
                h.r(x, subset(r, (1, 2, 3)))
            elif z == "s":
                h.s(x, subset(r, (1, 2, 3)))
            elif z[0] == "t":
                h.tag(x, r.randint(1, 3), z == "t+")
            elif z == "oa":
                h.oa(r.randint(1, 2), x)
            else:
                h.orem(r.randint(1, 2), x)
        (h.c() if r.random() < 0.6 else h.k(subset(r, (1, 2, 3))))
        observe(h, ("alive", "arch", "vals", "tags", "ord"), (1, 2, 3), r)
        if r.random() < 0.5:
            h.c()
    return h.hist()


def c19s(ck, rel):
    k = scale(ck, 3, 30)
    e = ("end",)
    hs = several(ck, "rand", 100 * k, lambda r, n: rand_hist(r, n, ops(q=1), (), 50, maxlive=9, endobs=e, cap=r.choice(CAPS),
                                                        ntags=r.choice((3, 40)), groups=r.choice((1, 3, 6, 40)), stale=0.1))
    hs += several(ck, "short", 40 * k, lambda r, n: rand_hist(r, n, ops(), (), r.randint(0, 6), maxlive=3, endobs=e))
    if not rel:
        hs += several(ck, "refuse", 20 * k, lambda r, n: rand_hist(r, n, ops(x=3), (), 40, maxlive=5, refuse=True, endobs=e))
    hs += several(ck, "page", 10 * k, lambda r, n: rand_hist(r, n, ops(k=9), (), 120, maxlive=40, comps=(3, 4, 5), endobs=e))
    hs += several(ck, "x", 15 * k, lambda r, n: rand_hist(
        r, n, STRUCT, (), 60, comps=XREP, idsets=XSETS, cidsets=XFIT, report=XSINGLE, endobs=e))
    hs += several(ck, "arch", 6 * k, lambda r, n: rand_hist(
        r, n, ops(a=9, r=5), (), 160, maxlive=20, comps=range(6, 18), idsets=[[i] for i in range(6, 18)], endobs=e))
    hs += several(ck, "bulk", 10 * k, lambda r, n: phased_hist(r, n, (), 14, 500, PH, endobs=e))
    hs += several(ck, "late", 12 * k, lambda r, n: ends(
        grow_hist(r, n, (), r.choice(CAPS), r.choice((40, 90, 140)), ["k", "c", "t+", "oa", "t+", "a"], destroy=0.2,
                  ntags=r.choice((3, 40)), groups=r.choice((2, 6, 40)))))
    hs += bounds(ck, rel, (), 0.5, ntags=40, groups=6, endobs=e)
    hs += several(ck, "over", 12 * k, lambda r, n: refused_creates(r, n, (), e))
    return hs


def c21(ck, rel):
    o = ("alive", "arch", "vals", "tags", "ord", "q", "cap")
    k = scale(ck, 2, 25)
    caps = (0, 1, 2, 3, 7, 31, 32, 33, 64, 257)
    hs = []
    for i in range(4 * k):
        for c in caps:
            r = random.Random("%s/%d/%d" % (ck.pid, ck.seed, i))
            hs.append(rand_hist(r, "same%d_%d" % (i, c), ops(c=5), o, 60, cap=c, maxlive=40, every=6, q=dict(filt=0.2),
                                sample=12))
    for i in range(2 * k):
        for c in caps:
            r = random.Random("%s/g/%d/%d" % (ck.pid, ck.seed, i))
            hs.append(grow_hist(r, "grow%d_%d" % (i, c), o, c, 75, ["k", "c", "t+", "oa", "on", "a", "r"], destroy=0.15))
    for i in range(1 * k):
        for c in (1, 10, 1000):
            r = random.Random("%s/b/%d/%d" % (ck.pid, ck.seed, i))
            hs.append(phased_hist(r, "bulk%d_%d" % (i, c), ("cap",) + o[:5], 12, 400, PH, cap=c, sample=20))
    hs += several(ck, "over", 8 * k, lambda r, n: refused_creates(r, n, o))
    return hs


def c22(ck, rel):
    k = scale(ck, 3, 30)
    st = (0,) + ALLSTYLES
    hs = several(ck, "rand", 80 * k, lambda r, n: rand_hist(r, n, ops(oa=3, tP=3), ("q", "q", "q"), 50, maxlive=8,
                                                       q=dict(filt=0.25, styles=st, part=0), groups=2))
    hs += several(ck, "pair", 40 * k, pairs)
    hs += several(ck, "page", 14 * k, lambda r, n: rand_hist(r, n, ops(k=9, oa=3), ("q", "q"), 80, maxlive=30, comps=(3, 4, 5),
                                                        every=4, q=dict(styles=st, part=0), groups=2))
    hs += several(ck, "bulk", 5 * k, lambda r, n: phased_hist(r, n, ("q", "q"), 12, 150, PH, maxn=500, q=dict(styles=st, part=0, filt=0.3)))
    return hs


def pairs(r, name):
    """the same query with and without entities, one after the other"""
    h = H(r, name, r.choice(CAPS))
    big = r.random() < 0.3
    cs = (3, 4, 5) if big else (1, 2, 3, 4)
    for _ in range(20 if big else 6):
        h.k(subset(r, cs))
    for i in range(14):
        z = r.random()
        if not h.alive or z < 0.3:
            h.k(subset(r, cs))
        elif z < 0.4:
            h.d(r.choice(h.alive))
        elif z < 0.7:
            h.a(r.choice(h.alive), subset(r, cs))
        elif z < 0.8:
            h.r(r.choice(h.alive), subset(r, cs))
        if h.alive:
            t = r.choice(h.alive)
            if t not in h.order[1]:
                h.oa(1, t)
        n0 = len(h.lines)
        rquery(h, cs, kinds="clo", styles=(0, 0, 1), part=0, persist=0.3)
        w = h.lines[n0].split()
        w[4] = "0" if w[4] == "1" else "1"
        if w[5] != "0":
            w[4], w[5] = "1", w[5]
        w[6] = h.lines[n0].split()[6]
        h.lines.append(" ".join(w))
    return h.hist()


def c23(ck, rel):
    o = ("vals", "get", "get")
    k = scale(ck, 2, 25)
    q = dict(shapes=WIDEQ, write=0.4)
    hs = several(ck, "wide", 60 * k, lambda r, n: rand_hist(
        r, n, ops(s=5), o, 40, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE, maxlive=5))
    hs += several(ck, "wq", 30 * k, lambda r, n: rand_hist(
        r, n, ops(oa=3), ("q", "q", "vals"), 40, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE, q=q, maxlive=5, groups=2))
    hs += several(ck, "perm", 40 * k, lambda r, n: rand_hist(r, n, ops(s=5), o + ("q",), 40, maxlive=5, q=dict(write=0.4)))
    hs += several(ck, "each", 1, each_shape)
    hs += several(ck, "tiny", 20 * k, lambda r, n: rand_hist(r, n, ops(s=5), o + ("q",), 40, maxlive=6,
                                                        q=dict(shapes=TINYQ, write=0.4, ents=1), **TINY))
    return hs


def each_shape(r, name):
    """every tuple type in every role"""
    h = H(r, name, 10)
    for i in range(WIDE1):
        s = SHAPES[i]
        h.out("comps", *sorted({index([c])[0] for c in s["ids"]}))
        h.c()
        t = h.n
        h.a(t, s["ids"], i)
        h.out("vals", t)
        h.k(s["ids"], i)
        h.out("vals", h.n)
        for how in (0, 1, 2):
            h.out("get", t, i, how)
        h.s(t, s["ids"], i)
        h.out("vals", t)
        if s["q"]:
            h.out("oa", 1, t)
            for kind in "clo":
                for m in ("R", "W", "X"):
                    h.q(kind, m, i, r.randint(0, 1), 0, 1, 0, -1, 0, 1 if m != "R" else 0, (t,) if kind == "l" else ())
                    h.out("vals", t)
        h.r(t, s["ids"], i)
        h.out("vals", t)
        h.d(t)
        h.d(h.n)
    return h.hist()


def c24(ck, rel):
    k = scale(ck, 3, 30)
    q = dict(persist=1, part=0.5, filt=0.1)
    obs = ("q", "q", "q")
    hs = several(ck, "rand", 90 * k, lambda r, n: rand_hist(r, n, ops(oa=4), obs, 60, maxlive=7, comps=(1, 2, 3), q=q, groups=2))
    hs += several(ck, "state", 20 * k, lambda r, n: rand_hist(r, n, ops(oa=3), ("q", "q", "vals", "arch", "ord", "tags"), 40,
                                                         maxlive=7, q=q, groups=2))
    hs += several(ck, "page", 16 * k, lambda r, n: rand_hist(r, n, ops(k=9, oa=3), obs, 80, maxlive=30, comps=(3, 4, 5), every=3,
                                                        q=q, groups=2))
    hs += several(ck, "style", 20 * k, lambda r, n: rand_hist(r, n, ops(oa=3), obs, 50, maxlive=7, groups=2, comps=(1, 2, 3),
                                                         q=dict(persist=1, part=0.3, styles=ALLSTYLES)))
    hs += several(ck, "other", 40 * k, other_store)
    hs += several(ck, "bulk", 4 * k, lambda r, n: phased_hist(r, n, ("q", "q"), 12, 100, PH, maxn=400, q=q))
    return hs


def c25(ck, rel):
    o = ("arch", "tags", "ord", "q")
    k = scale(ck, 3, 30)
    w = ops(d=6, c=4, k=4, tP=4, oa=4)
    hs = several(ck, "rand", 90 * k, lambda r, n: rand_hist(r, n, w, o, 50, maxlive=6, q=dict(filt=0.4)))
    hs += several(ck, "many", 15 * k, lambda r, n: rand_hist(r, n, w, o, 50, maxlive=6, ntags=40, groups=6, every=4,
                                                        q=dict(filt=0.2)))
    hs += several(ck, "manyg", 5 * k, lambda r, n: rand_hist(r, n, dict(w, oa=20), o, 120, maxlive=6, ntags=40, groups=r.choice((9, 17, 40)),
                                                        every=15, q=dict(filt=0.2)))
    hs += several(ck, "grow", 8 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 100, ["k", "c", "t+", "oa", "on", "a"],
                                                       destroy=0.4, q=dict(filt=0.3)))
    hs += several(ck, "bulk", 10 * k, lambda r, n: phased_hist(
        r, n, o, 16, 120, {"C": 4, "D": 4, "T+": 3, "OA": 2, "A": 2, "R": 1}, sample=40, q=dict(filt=0.4)))
    hs += bounds(ck, rel, o[:3], 0.3)
    hs += several(ck, "over", 8 * k, lambda r, n: refused_creates(r, n, o[:3]))
    return hs


# ------------------------------------------------------------------ handles, churn (HandlesTrace)

def c01(ck, rel):
    k = scale(ck, 3, 30)
    w = {"c": 5, "k": 2, "d": 5, "a": 1, "r": 0.5, "t+": 0.5, "oa": 0.5, "x": 0 if rel else 1.5}
    hs = several(ck, "rand", 90 * k, lambda r, n: rand_hist(r, n, w, (), 120, maxlive=r.choice((3, 8, 40))))
    hs += several(ck, "grow", 12 * k, lambda r, n: grow_hist(r, n, (), r.choice(CAPS), 200, ["k", "c", "t+"], destroy=0.35))
    hs += several(ck, "bulk", 10 * k, lambda r, n: phased_hist(r, n, (), 20, 300, {"C": 3, "D": 3, "A": 1}))
    if not rel:
        hs += several(ck, "big", 1, lambda r, n: big_handles(r, n))
    hs += several(ck, "churn", 3 * k, churn_ids)
    if rel:
        hs += several(ck, "worn", 1, worn_id)
    hs += several(ck, "over", 12 * k, lambda r, n: refused_creates(r, n, ()))
    return hs


def worn_id(r, name):
    """more uses of one id than there are versions: about a minute of calls (release build only)"""
    h = H(r, name, r.choice((1, 2, 4)))
    h.c()
    if r.random() < 0.5:
        h.c()
    h.d(1)
    for _ in range(64):
        h.out("V", 1 << 26)
    for _ in range(3):
        h.c()
    h.d(h.n)
    h.out("U", 10)
    h.c()
    return h.hist()


def churn_ids(r, name):
    h = H(r, name, r.choice((1, 3, 10)))
    for i in range(3):
        h.c()
    if r.random() < 0.7:
        h.d(2)
    h.out("U", 70000)
    for i in range(3):
        h.c()
    h.d(h.alive[0])
    h.out("U", 300)
    h.c()
    h.c()
    return h.hist()


def big_handles(r, name):
    h = H(r, name, 1)
    h.C(66000)
    h.D(65000, 66000, 2)
    h.C(1000)
    h.D(3, 900, 3)
    h.C(400)
    return h.hist()


def c20(ck, rel):
    k = scale(ck, 2, 12)
    cyc = scale(ck, 1000, 4000)
    hs = several(ck, "cycle", 8 * k, lambda r, n: cycles(r, n, cyc))
    hs += several(ck, "rand", 30 * k, lambda r, n: rand_hist(
        r, n, {"c": 5, "k": 2, "d": 5, "a": 1, "t+": 0.5}, (), 120, maxlive=r.choice((3, 8, 40))))
    hs += several(ck, "grow", 8 * k, lambda r, n: grow_hist(r, n, (), r.choice(CAPS), 200, ["k", "c", "t+"], destroy=0.3))
    hs += several(ck, "bulk", 6 * k, lambda r, n: phased_hist(r, n, (), 20, 300, {"C": 3, "D": 3, "A": 1}))
    hs += several(ck, "one", 2 * k, lambda r, n: one_churn(r, n))
    hs += several(ck, "pop", 6 * k, lambda r, n: bulk_cycles(r, n))
    hs += several(ck, "over", 12 * k, lambda r, n: refused_creates(r, n, ()))
    hs += several(ck, "overcycle", 2 * k, refused_cycles)
    return hs


def one_churn(r, name):
    h = H(r, name, 2)
    h.c()
    sh = r.choice((0, 1, 2, 10))
    for i in range(6):
        h.out("U", 3000 if i else 50, sh)
        h.out("mem", 1 if i == 0 else 0)
    return h.hist()


def cycles(r, name, n):
    """the same cycle again and again"""
    h = H(r, name, r.choice((1, 3, 10, 100)))
    base = [h.k(subset(r, (1, 2, 3, 4, 5))) if r.random() < 0.6 else h.c() for _ in range(r.randint(0, 4))]
    plan = []
    m = r.randint(1, 5)
    sets = [subset(r, (1, 2, 3, 4, 5)) for _ in range(3)]
    shp = {i: r.choice(index(s)) for i, s in enumerate(sets)}
    for _ in range(m):
        plan.append(("k", r.randrange(3)) if r.random() < 0.6 else ("c",))
    for _ in range(r.randint(2, 10)):
        plan.append((r.choice(("a", "r", "t+", "t-", "oa", "or", "a", "r", "q")), r.randrange(m), r.randrange(3)))
    dorder = list(range(m))
    r.shuffle(dorder)
    for c in range(n):
        new = []
        for p in plan:
            if p[0] == "c":
                new.append(h.c())
            elif p[0] == "k":
                new.append(h.k(sets[p[1]], shp[p[1]]))
            elif p[0] == "a":
                h.a(new[p[1]], sets[p[2]], shp[p[2]])
            elif p[0] == "r":
                h.r(new[p[1]], sets[p[2]], shp[p[2]])
            elif p[0] in ("t+", "t-"):
                h.tag(new[p[1]], p[2] + 1, p[0] == "t+")
            elif p[0] == "oa":
                if new[p[1]] not in h.order[p[2] + 1]:
                    h.oa(p[2] + 1, new[p[1]])
            elif p[0] == "or":
                h.orem(p[2] + 1, new[p[1]])
        for i in dorder:
            h.d(new[i])
        if c % 40 == 39 or c == n - 1:
            h.out("mem", 1 if c < n // 2 else 0)
    return h.hist()


def bulk_cycles(r, name):
    """populations of several pages, built and taken down again and again"""
    h = H(r, name, 10)
    sets = [subset(r, (1, 2, 3, 4, 5)) for _ in range(3)]
    shp = [r.choice(index(s)) for s in sets]
    size = [r.randint(5, 60) for _ in sets]
    for c in range(40):
        b = [h.C(size[i], sets[i], shp[i]) for i in range(3)]
        h.A(b[0][0], b[0][1], 2, sets[1], shp[1])
        h.R(b[1][0], b[1][1], 1, sets[1], shp[1])
        h.T(b[2][0], b[2][1], 3, 1)
        h.OA(1, b[2][0], b[2][1], 2)
        for lo, hi in b:
            h.D(lo, hi, 1)
        h.out("mem", 1 if c < 20 else 0)
    return h.hist()


# ------------------------------------------------------------------ resources, archetypes

KINDS = ("plain", "zst", "heap", "wide", "text", "pod")


def res(ck, rel):
    k = scale(ck, 3, 40)
    hs = []
    for kind in KINDS:
        hs += several(ck, kind, 22 * k, lambda r, n: resources(r, n, kind, 70, refuse=not rel))
        hs += several(ck, kind + "long", 2 * k, lambda r, n: resources(r, n, kind, 700, refuse=not rel, grow=0.6))
        hs += several(ck, kind + "short", 6 * k, lambda r, n: resources(r, n, kind, r.randint(0, 5), refuse=not rel))
        hs += several(ck, kind + "churn", 1, lambda r, n: ("HR", n, kind + " 2", ["n", "n", "x 1", "u 70000", "n", "n", "g 3", "g 4", "end"]))
        if not rel:
            hs += several(ck, kind + "worn", 2, lambda r, n: worn(r, n, kind))
    if rel and ck.pid == "C17":
        hs.append(("HR", "worn", "pod 1", ["n", "x 1"] + ["v %d" % (1 << 26)] * 64 + ["n", "n", "g 2", "g 3", "x 2", "n", "g 4", "end"]))
    return hs


def worn(r, name, kind):
    """released handles used after their place was used again so often that the low bits of its version came back"""
    lines = ["n", "n", "n"]
    n, dead = 3, []
    for k in (127, 255, 511, 32767, 65535):
        t = r.choice([x for x in range(1, n + 1) if x not in dead])
        lines += ["x %d" % t, "u %d" % k, "n"]
        n += 1
        dead.append(t)
        uses = ["%s %d" % (o, t) for o in "gwpx"]
        r.shuffle(uses)
        lines += uses + ["g %d" % n]
    for t in dead:
        lines.append("%s %d" % (r.choice("gwpx"), t))
    lines += ["g %d" % t for t in range(1, n + 1) if t not in dead]
    return ("HR", name, kind + " 2", lines + ["end"])


def arch(ck, rel):
    k = scale(ck, 3, 40)
    hs = several(ck, "arch", 140 * k, lambda r, n: archetypes(r, n, 50))
    hs += several(ck, "pairs", 1, all_pairs)
    hs += several(ck, "builder", k, one_builder)
    return hs


def one_builder(r, name):
    """one builder that is told the same things over and over"""
    shp = [i for i, x in enumerate(SHAPES) if set(x["ids"]) <= set(range(1, 27))]
    lines = ["with %d" % i for i in r.sample(shp, 6)] + ["bnew"]
    for i in range(220):
        lines.append("barc %d" % r.randint(1, 6))
        z = r.random()
        if z < 0.2:
            lines.append("binc %d" % r.choice(shp))
        elif z < 0.4:
            lines.append("%s %s" % (r.choice(("btin", "btex")), " ".join(map(str, r.sample(SINGLES, 4)))))
        if i % 40 == 39:
            lines += ["build", "show %d" % (7 + i // 40)]
    return ("HA", name, "", lines)


def all_pairs(r, name):
    """all subsets of five types against each other"""
    lines = []
    for i in range(N_SMALL):
        lines.append("with %d" % i)
    for i in range(1, N_SMALL + 1):
        for j in range(1, N_SMALL + 1):
            lines.append("cmp %d %d" % (i, j))
            w = list(SHAPES[j - 1]["ids"])
            r.shuffle(w)
            lines.append("ids %d %s" % (i, " ".join(map(str, w))))
    return ("HA", name, "", lines)


# ------------------------------------------------------------------ accesses (C28)

def fenced(hs, end, raw=True):
    """the histories in memory between inaccessible pages, fresh memory filled with different values"""
    res = []
    for i, (kind, name, params, lines) in enumerate(hs):
        fill = (0, 255, 165, 1)[i % 4]
        if raw and i % 16 == 5:
            lines = ["kr" + x[1:] if x.startswith("k ") else x for x in lines]
        res.append((kind, name, params, ["memory %d %d" % (fill, i % 8 != 7)] + lines + ([] if lines[-1].split()[0] == end else [end])))
    return res


def c28s(ck, rel):
    o = ("alive", "arch", "vals", "tags", "ord", "q")
    k = scale(ck, 1, 12)
    w = ops(oa=3, on=2, op=2, **{"t+": 3})
    hs = several(ck, "rand", 40 * k, lambda r, n: rand_hist(r, n, w, o, 60, maxlive=r.choice((5, 12)), groups=3, every=2))
    hs += several(ck, "grow", 30 * k, lambda r, n: grow_hist(r, n, o, r.choice(CAPS), 120, ["k", "c", "t+", "oa", "on", "a"],
                                                        destroy=r.choice((0, 0.3))))
    hs += several(ck, "wide", 25 * k, lambda r, n: rand_hist(
        r, n, ops(s=5), ("vals", "get", "q"), 40, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE, maxlive=5,
        q=dict(shapes=WIDEQ, write=0.4)))
    hs += several(ck, "page", 12 * k, lambda r, n: rand_hist(r, n, ops(k=9, oa=3), ("q", "vals"), 80, maxlive=30, comps=(3, 4, 5),
                                                        every=3, q=dict(styles=ALLSTYLES)))
    hs += several(ck, "bulk", 5 * k, lambda r, n: phased_hist(r, n, o, 14, 150, PH, maxn=600, sample=40))
    hs += several(ck, "pop", k, bulk_cycles)
    hs += several(ck, "over", 6 * k, lambda r, n: refused_creates(r, n, o[:3]))
    if not rel:
        hs += several(ck, "stale", 20 * k, lambda r, n: rand_hist(r, n, ops(x=3, oa=3), o, 60, maxlive=5, groups=2, every=3))
    hs += several(ck, "each", 1, each_shape)
    return fenced(hs + designs.histories(ck, "StoreTrace", rel), "end")


def c28r(ck, rel):
    k = scale(ck, 1, 12)
    hs = []
    for kind in KINDS:
        hs += several(ck, kind, 12 * k, lambda r, n: resources(r, n, kind, 70, refuse=not rel))
        hs += several(ck, kind + "long", k, lambda r, n: resources(r, n, kind, 700, refuse=not rel, grow=0.6))
    return fenced(hs + designs.histories(ck, "ResTrace", rel), "end")


def c28a(ck, rel):
    k = scale(ck, 1, 12)
    hs = several(ck, "arch", 60 * k, lambda r, n: archetypes(r, n, 50)) + several(ck, "pairs", 1, all_pairs)
    return fenced(hs + designs.histories(ck, "ArchTrace", rel), "aend")


# ------------------------------------------------------------------ handles of other stores (C31)

def c31s(ck, rel):
    u = "unk" if rel else "unk!"
    o = (u, "alive", "arch", "vals", "tags", "ord", "q")
    k = scale(ck, 1, 12)
    w = ops(oa=3, on=1, d=3, **{"t+": 3})
    hs = several(ck, "rand", 90 * k, lambda r, n: rand_hist(r, n, w, (u, u) + o[1:], 40, maxlive=r.choice((3, 8)), groups=2))
    hs += several(ck, "stale", 30 * k, lambda r, n: rand_hist(r, n, w, o, 40, maxlive=5, groups=2, stale=0.2))
    hs += several(ck, "grow", 30 * k, lambda r, n: grow_hist(r, n, (u,) + o, r.choice(CAPS), 60, ["k", "c", "t+", "oa", "a"],
                                                        destroy=r.choice((0, 0.3))))
    hs += several(ck, "reuse", 10 * k, lambda r, n: rand_hist(r, n, ops(d=6, k=8), o, 60, maxlive=4, groups=2))
    hs += designs.walks(ck, "HandlesImpl", rel, designs.ids_walk((u, u, u, "alive", "arch", "vals", "tags", "ord"), rel, groups=2),
                        skip="x" if rel else ())
    return hs[::2] + fenced(hs[1::2], "end", False)


def c31r(ck, rel):
    if rel:
        return []
    k = scale(ck, 2, 30)
    hs = []
    for kind in KINDS:
        hs += several(ck, kind, 12 * k, lambda r, n: resources(r, n, kind, 60, unknown=0.5))
        hs += designs.walks(ck, "ResourceSlots", rel, designs.res_walk(kind, rel, True), 900, tag=kind)
    return hs[::2] + fenced(hs[1::2], "end", False)


# ------------------------------------------------------------------ memory refused (C32)

HUGE = (2**31, 2**40, 2**60, 2**61, 2**62, 2**62 + 3, 2**63 - 1)


def refused_at(r, h, n, end):
    """the history with its n-th allocation refused"""
    kind, name, params, lines = h
    return (kind, "%s_%d" % (name, n), params,
            ["memory %d %d %d" % (r.choice((0, 255, 165)), n % 4 != 3, n)] + lines + ([] if lines[-1].split()[0] == end else [end]))


def sweep(ck, tag, bases, far, end, maker):
    """every allocation of `bases` histories refused, one in each run"""
    out = []
    for h in several(ck, tag, bases, maker):
        r = random.Random("%s/%s" % (ck.pid, h[1]))
        late = sorted(r.sample(range(far + 1, 8 * far), far // 2))
        out += [refused_at(r, h, n, end) for n in [*range(1, far + 1), *late]]
    return out


def c32s(ck, rel):
    o = ("alive", "arch", "vals", "tags", "ord", "q")
    k = scale(ck, 1, 8)
    w = ops(k=8, c=4, oa=4, on=2, d=3, **{"t+": 4})
    hs = sweep(ck, "mixed", 4 * k, 60, "end", lambda r, n: rand_hist(r, n, w, o, 30, cap=r.choice((0, 1, 2, 4)), maxlive=9, groups=2, every=4))
    hs += sweep(ck, "grow", 3 * k, 50, "end", lambda r, n: grow_hist(r, n, o, r.choice((0, 1, 2)), 70, ["k", "c", "t+", "oa", "on", "a"], destroy=0.1))
    hs += sweep(ck, "late", 2 * k, 40, "end", lambda r, n: grow_hist(r, n, o, 32, 70, ["k", "c", "t+", "oa", "a"], destroy=0.0))
    hs += sweep(ck, "wide", 2 * k, 60, "end", lambda r, n: rand_hist(
        r, n, ops(k=6, a=6, s=3), ("vals", "q"), 25, comps=range(6, 18), idsets=WIDESETS, report=WSINGLE, maxlive=6, every=5))
    for i, c in enumerate(HUGE):
        h = H(random.Random(c), "huge%d" % i, c)
        h.k([1, 2])
        h.c()
        h.tag(1, 1, True)
        h.oa(1, 1)
        h.oa(1, 2)
        observe(h, o[:5], (1, 2), random.Random(c), groups=1)
        kind, name, params, lines = h.hist()
        hs.append((kind, name, params, ["memory 165 1 0"] + lines))
    return hs


def c32r(ck, rel):
    k = scale(ck, 1, 8)
    hs = []
    for kind in KINDS:
        hs += sweep(ck, kind, 2 * k, 14, "end", lambda r, n: resources(r, n, kind, 60, refuse=False, grow=0.6))
        hs += [("HR", "huge%s%d" % (kind, i), "%s %d" % (kind, c), ["memory 0 1 0", "n", "n", "g 1", "w 2", "end"]) for i, c in enumerate(HUGE)]
    return hs


def c32a(ck, rel):
    return sweep(ck, "arch", scale(ck, 5, 40), 60, "aend", lambda r, n: archetypes(r, n, 30))


# ------------------------------------------------------------------ several stores (C29, C30)

def merged(r, name, parts, gone=0.3):
    """parts: histories of single stores; their calls in any order"""
    todo = []
    for w, h in enumerate(parts, 1):
        lines = list(h[3])
        if r.random() < gone:
            lines = lines[:r.randint(0, len(lines))] + ["gone"]
        todo.append((w, lines, 0))
    out = []
    while todo:
        k = r.randrange(len(todo))
        w, lines, i = todo[k]
        n = r.choice((1, 1, 1, 2, 5, 20))
        out += ["%d %s" % (w, x) for x in lines[i:i + n]]
        if i + n >= len(lines):
            todo.pop(k)
        else:
            todo[k] = (w, lines, i + n)
    return ("HW", name, " ".join(h[2] for h in parts), out)


def twins(r, name, h, other, fence):
    """the same calls on two stores, others on a third one"""
    m = merged(r, name, [h, other], 0)
    out = []
    for x in m[3]:
        w, x = x.split(" ", 1)
        out += ["1 " + x, "2 " + x] if w == "1" else ["3 " + x]
    if fence:
        out.insert(0, "memory %d 1" % r.choice((0, 255, 165)))
    return ("HW", name, "%s %s %s" % (h[2], h[2], other[2]), out)


SEEN = ("alive", "arch", "vals", "tags", "ord", "q", "q")


def one_store(r, name, rel):
    z = r.random()
    q = dict(persist=0.5, part=0.1, filt=0.2, write=0.2, styles=(0, 0, 1, 2, 4, 5, 7, 8))
    if z < 0.12:      # with sets that do not fit in a page
        return rand_hist(r, name, STRUCT, ("arch", "vals"), 40, comps=XREP, idsets=XSETS, cidsets=XFIT, report=XSINGLE, every=2)
    if z < 0.17:
        return gen.crowd_hist(r, name, ("arch", "vals", "q"))
    if z < 0.5:
        return rand_hist(r, name, ops(oa=4, on=2, op=2, x=0 if rel else 0.5, **{"t+": 3}), SEEN, 50, maxlive=r.choice((4, 10)),
                         groups=3, q=q, every=2)
    if z < 0.7:
        return grow_hist(r, name, SEEN, r.choice(CAPS), 70, ["k", "c", "t+", "oa", "a"], destroy=0.3, q=q)
    if z < 0.85:
        return rand_hist(r, name, ops(k=9, oa=3), SEEN, 70, maxlive=30, comps=(3, 4, 5), every=3, q=q, groups=2)
    return phased_hist(r, name, SEEN, 10, 60, PH, maxn=300, q=q, sample=30)


def c29(ck, rel):
    k = scale(ck, 2, 30)
    hs = several(ck, "worlds", 40 * k, lambda r, n: merged(r, n, [one_store(r, n, rel) for _ in range(r.choice((2, 2, 3)))]))
    # the same calls at different times: equal ids and versions in all of them
    hs += several(ck, "equal", 20 * k, lambda r, n: merged(r, n, [one_store(r, n, rel)] * 2))
    hs += several(ck, "walks", 10 * k, lambda r, n: merged(r, n, r.sample(walked(ck, rel), 4), 0.1))
    return hs + [x for h in hs for x in alone(h)]


def alone(h):
    """the calls of every store of a merged history by themselves"""
    return [("HW", "%s/%d" % (h[1], w), p, ["1 " + x.split(" ", 1)[1] for x in h[3] if x.startswith("%d " % w)])
            for w, p in enumerate(h[2].split(), 1)]


def beside_alone(ts):
    """traces of the stores of merged histories, with what the same store answers when it is alone"""
    solo = {(t["name"], t["build"]): t["ev"] for t in ts if "/" in t["name"]}
    res = []
    for t in ts:
        if "/" not in t["name"]:
            name, _, w = t["name"].partition("#")
            t["extra"] = '"twin":[%s],' % ",".join(solo.get((name + "/" + (w or "1"), t["build"]), []))
            res.append(t)
    return res


def walked(ck, rel):
    key = "_walked%d" % rel
    if not hasattr(ck, key):
        setattr(ck, key, plus(ids(SEEN[:5], groups=2), orders(("ord",), 1500, groups=3), pages(("vals", "q"), 1500),
                              tag_walks(("tags",), 1500, sample=8))(ck, rel))
    return getattr(ck, key)


def c30(ck, rel):
    k = scale(ck, 2, 30)
    hs = several(ck, "twins", 60 * k, lambda r, n: twins(r, n, one_store(r, n, rel), one_store(r, n, rel), r.random() < 0.5))
    for i, h in enumerate(walked(ck, rel)):
        r = random.Random("%s/%d/%d" % (ck.pid, ck.seed, i))
        if ck.thorough or i % 3 == 0:
            hs.append(twins(r, h[1], h, one_store(r, h[1], rel), r.random() < 0.5))
    return hs


def paired(ts):
    """traces of the first stores, with those of the second ones beside them; the third are left out"""
    of = {}
    for t in ts:
        name, _, w = t["name"].partition("#")
        of.setdefault((name, t["build"]), {})[w] = t
    res = []
    for ws in of.values():
        t = ws[""]
        t["extra"] = '"twin":[%s],' % ",".join(ws["2"]["ev"] if "2" in ws else [])
        res.append(t)
    return res


# ------------------------------------------------------------------ the table

STORE = dict(C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13,
             C14=c14, C15=c15, C21=c21, C22=c22, C23=c23, C24=c24, C25=c25)
HANDLES = dict(C01=c01, C20=c20)
RES = dict(C16=res, C17=res)


# ------------------------------------------------------------------ walks through the state graphs of the design models

def ids(obs, **kw):
    return lambda ck, rel: designs.walks(ck, "HandlesImpl", rel, designs.ids_walk(obs, rel, **kw), skip="x" if rel else ())


def orders(obs, budget, **kw):
    return lambda ck, rel: designs.walks(ck, "OrderLinks", rel, designs.order_walk(obs, rel, **kw), budget,
                                         skip=("oa!", "on!", "op!") if rel else ())


def pages(obs, budget, **kw):
    return lambda ck, rel: designs.walks(ck, "Pages", rel, designs.page_walk(obs, **kw), budget)


def plus(*fs):
    return lambda ck, rel: [h for f in fs for h in f(ck, rel)]


def configs(kinds, budget, **kw):
    return lambda ck, rel: designs.configurations(ck, rel, kinds, budget, **kw)


def tag_walks(obs, budget, skip=("end",), **kw):
    return lambda ck, rel: designs.walks(ck, "TagBits", rel, designs.tag_walk(obs, rel, **kw), budget, skip=skip)


def resource_walks(ck, rel):
    out = []
    for kind in KINDS:
        out += designs.walks(ck, "ResourceSlots", rel, designs.res_walk(kind, rel), 1500, skip="?" if rel else (), tag=kind)
    return out


WALKS = {
    "C01": ids((), deco=False),
    "C02": ids(("alive",)),
    "C03": ids(("alive", "vals", "tags", "ord", "arch"), groups=2),
    "C04": pages(("arch",), 4000),
    "C05": pages(("vals",), 5000),
    "C06": pages(("addr",), 3000),
    "C07": plus(pages(("q", "q"), 4000, q=dict(kinds="c")), configs("c", 700)),
    "C09": tag_walks(("tags",), 9000, sample=8),
    "C10": plus(tag_walks(("q",), 5000, comps=(1, 2), q=dict(kinds="c", filt=1.0), ntags=2), configs("c", 1000)),
    "C08": pages(("q", "vals"), 3000, q=dict(kinds="cl", write=0.8, modes="WX")),
    "C11": orders(("ord",), 3000, groups=3),
    "C12": orders(("ord",), None, groups=3),
    "C13": plus(orders(("q", "q"), 1500, comps=(1, 2, 3), q=dict(kinds="o")),
                pages(("q", "q"), 2000, ordered=True, q=dict(kinds="o")), configs("o", 1500)),
    "C14": plus(pages(("q", "q"), 3000, q=dict(kinds="l")), configs("l", 1500)),
    "C15": lambda ck, rel: designs.walks(ck, "HandlesImpl", rel,
                                         designs.stale_walk(("alive", "arch", "vals", "tags", "ord"), rel, groups=2)),
    "C16": resource_walks,
    "C17": resource_walks,
    "C18": lambda ck, rel: designs.walks(ck, "ArchSets", rel, designs.arch_walk, 9000),
    ("C19", "StoreTrace"): plus(pages((), 6000, endobs=("end",)), tag_walks((), 4000, (), endobs=("end",))),
    ("C19", "ResTrace"): resource_walks,
    "C20": ids((), deco=False),
    ("C28", "StoreTrace"): plus(ids(("alive", "arch", "tags", "ord"), groups=2), orders(("ord",), 1200, groups=3),
                                pages(("vals", "q"), 2500), tag_walks(("tags",), 2500, (), sample=8)),
    ("C28", "ResTrace"): resource_walks,
    ("C28", "ArchTrace"): lambda ck, rel: designs.walks(ck, "ArchSets", rel, designs.arch_walk, 2000),
    "C21": ids(("alive", "arch", "vals", "tags", "ord", "cap"), groups=2, caps=(0, 1, 2, 3, 31, 32, 33, 64)),
    "C22": plus(pages(("q", "q"), 2000, q=dict(styles=(0,) + ALLSTYLES, part=0)),
                configs("clo", 900, q=dict(styles=ALLSTYLES, part=0))),
    "C24": plus(pages(("q", "q", "q"), 2000, ordered=True, q=dict(persist=1, part=0.4)),
                configs("clo", 900, q=dict(persist=1, part=0.4))),
    "C25": plus(ids(("arch", "tags", "ord", "q"), groups=2, q=dict(filt=0.4)), orders(("ord",), 1500, groups=3),
                tag_walks(("tags",), 2000, sample=8)),
}


# ------------------------------------------------------------------ sizes beyond 8 and 16 bits

def large_res(ck, rel):
    return [gen.large_resources(random.Random("%s%s%s" % (ck.pid, kind, rel)), "many%s%d" % (kind, rel), kind, refuse=not rel)
            for kind in KINDS]


def capacities(ck, rel):
    """stores made for more entities than 16 bits can number: small histories in them"""
    o = ("alive", "arch", "vals", "tags", "ord", "cap")
    caps = (65535, 65536, 65537, 70000, 131072, 131073, 200001, 1 << 20, (1 << 20) + 1, 5000003, 1 << 24)
    return [rand_hist(random.Random("%s%d%s" % (ck.pid, c, rel)), "caps%d%s" % (c, "r" if rel else "d"),
                      ops(oa=2, on=1, op=1, **{"t+": 2}), o, 40, cap=c) for c in caps]


def scales(large=None, archs=None, pages=None, endobs=(), wide=None):
    """more than 2^16 entities, 2^8 archetypes, 2^8 pages, looked at with the given observations"""
    def make(ck, rel):
        hs = []
        for f, obs in ((gen.large_hist, large), (gen.archs_hist, archs), (gen.pages_hist, pages)):
            if obs is not None:
                hs += several(ck, f.__name__ + ("r" if rel else "d"), scale(ck, 1, 6), lambda r, n: f(r, n, obs))
        if wide:
            hs += several(ck, "wide_hist" + ("r" if rel else "d"), scale(ck, 1, 6), lambda r, n: gen.wide_hist(r, n, wide))
        for h in hs:
            h[3].extend(endobs)
        return hs
    return make


V, Q = ("vals", "get"), ("q", "q")
def walk_and_scale(a, b):
    return lambda ck, rel: a(ck, rel) + b(ck, rel)


BIG = {
    "C01": scales(()),
    "C02": scales(("alive",)),
    "C03": scales(("alive", "arch", "vals", "tags", "ord")),
    "C04": scales(("arch",), ("arch",), ("arch",)),
    "C05": scales(("vals",), V, V),
    "C06": scales(None, ("addr",), ("addr",)),
    "C07": scales(("q",), Q, Q, wide="c"),
    "C08": scales(None, ("q", "vals"), ("q", "vals")),
    "C09": scales(("tags",)),
    "C10": scales(("q",), wide="c"),
    "C11": scales(("ord",)),
    "C12": scales(("ord",)),
    "C13": scales(("q",), None, Q, wide="o"),
    "C14": scales(("q",), Q, Q, wide="l"),
    "C15": scales(("alive", "arch", "vals", "tags", "ord")),
    "C16": large_res,
    "C17": large_res,
    ("C19", "StoreTrace"): scales((), (), (), ("end",)),
    ("C19", "ResTrace"): large_res,
    "C20": scales(()),
    "C21": walk_and_scale(scales(("alive", "arch", "vals", "tags", "ord", "cap")), capacities),
    "C22": scales(None, Q, Q, wide="cl"),
    "C24": scales(None, Q, Q, wide="o"),
    "C25": scales(("arch", "tags", "ord", "q")),
    ("C28", "StoreTrace"): scales(("alive", "tags", "ord"), ("vals", "q"), ("vals", "q")),
    ("C28", "ResTrace"): large_res,
}


# sets of up to 85 types
CROWDS = {"C04": ("arch",), "C05": V, "C06": ("addr",), "C07": Q, "C08": ("q", "vals"), "C13": Q, "C14": Q, "C15": ("arch", "vals"),
          ("C19", "StoreTrace"): (), "C21": ("arch", "vals"), "C22": Q, "C23": ("vals", "get", "q"), "C24": Q,
          "C25": ("arch", "tags", "ord", "vals"), ("C28", "StoreTrace"): ("vals", "q")}


def crowd(pid, obs):
    def make(ck, rel):
        hs = several(ck, "crowd" + ("r" if rel else "d"), scale(ck, 4, 30), lambda r, n: gen.crowd_hist(r, n, obs))
        if pid == ("C19", "StoreTrace"):
            for h in hs:
                h[3].append("end")
        return hs
    return make


for _k, _o in CROWDS.items():
    BIG[_k] = walk_and_scale(BIG[_k], crowd(_k, _o)) if _k in BIG else crowd(_k, _o)
for _k, _f in BIG.items():
    WALKS[_k] = walk_and_scale(WALKS[_k], _f) if _k in WALKS else _f
