"""Schedules for the harness: seeded random and directed histories.

The shadow below only steers the generator (which calls would be refused, which tokens are alive); it is not an
oracle: what the calls must answer is decided by TLC against the specification."""
import itertools, random
from vlib.shapes import CROWD, LONE, M0, M1, SHAPES, N_SMALL, N_PERM, WIDE0, WIDE1, index, layout

GROUPS = 3
OVER = index([19]) + index([18, 6])      # more bytes than a page has


class H:
    """one history under construction"""

    def __init__(self, rng, name, cap=0):
        self.rng, self.name, self.cap = rng, name, cap
        self.lines = []
        self.n = 0
        self.alive = []
        self.comps = {}
        self.tags = {}
        self.order = {g: [] for g in range(1, 41)}
        self.dead = []
        self.touched = []

    def out(self, *w):
        self.lines.append(" ".join(str(x) for x in w))

    def hist(self):
        return ("HS", self.name, str(self.cap), self.lines)

    # --- shape choice
    def shape(self, ids):
        return self.rng.choice(index(ids))

    # --- operations
    def _born(self, ids):
        self.n += 1
        self.alive.append(self.n)
        self.comps[self.n] = set(ids)
        self.tags[self.n] = set()
        return self.n

    def c(self):
        self.out("c")
        return self._born(())

    def k(self, ids, sh=None):
        self.out("k", self.shape(ids) if sh is None else sh)
        return self._born(ids)

    def kx(self):
        """a creation that is refused: the components do not fit in a page"""
        self.out("k", self.rng.choice(OVER))

    def d(self, t):
        self.out("d", t)
        if t in self.comps:
            self._gone([t])

    def _gone(self, ts):
        s = set(ts)
        self.alive = [x for x in self.alive if x not in s]
        self.dead += [t for t in ts]
        for t in ts:
            self.comps.pop(t, None)
            self.tags.pop(t, None)
        for g in self.order:
            self.order[g] = [x for x in self.order[g] if x not in s]

    def a(self, t, ids, sh=None):
        self.touched.append(t)
        self.out("a", t, self.shape(ids) if sh is None else sh)
        if t in self.comps:
            self.comps[t] |= set(ids)

    def r(self, t, ids, sh=None):
        self.touched.append(t)
        self.out("r", t, self.shape(ids) if sh is None else sh)
        if t in self.comps:
            self.comps[t] -= set(ids)

    def s(self, t, ids, sh=None):
        self.touched.append(t)
        self.out("s", t, self.shape(ids) if sh is None else sh)

    def tag(self, t, g, on):
        self.touched.append(t)
        self.out("t+" if on else "t-", t, g)
        if t in self.tags:
            (self.tags[t].add if on else self.tags[t].discard)(g)

    def oa(self, g, t):
        self.out("oa", g, t)
        if t in self.comps and t not in self.order[g]:
            self.order[g].append(t)

    def oplace(self, nxt, g, t, a):
        self.out("on" if nxt else "op", g, t, a)
        o = self.order[g]
        if t in self.comps and a in self.comps and t not in o and a in o:
            o.insert(o.index(a) + (1 if nxt else 0), t)

    def orem(self, g, t):
        self.out("or", g, t)
        if t in self.order[g]:
            self.order[g].remove(t)

    # --- bulk
    def C(self, k, ids=None, sh=None):
        lo = self.n + 1
        if ids:
            self.out("K", k, self.shape(ids) if sh is None else sh)
        else:
            self.out("C", k)
        for _ in range(k):
            self._born(ids or ())
        return lo, self.n

    def D(self, lo, hi, st=1):
        self.out("D", lo, hi, st)
        self._gone(list(range(lo, hi + 1, st)))

    def A(self, lo, hi, st, ids, sh=None):
        self.out("A", lo, hi, st, self.shape(ids) if sh is None else sh)
        for t in range(lo, hi + 1, st):
            if t in self.comps:
                self.comps[t] |= set(ids)

    def R(self, lo, hi, st, ids, sh=None):
        self.out("R", lo, hi, st, self.shape(ids) if sh is None else sh)
        for t in range(lo, hi + 1, st):
            if t in self.comps:
                self.comps[t] -= set(ids)

    def T(self, lo, hi, st, g, on=True):
        self.out("T+" if on else "T-", lo, hi, st, g)

    def OA(self, g, lo, hi, st=1):
        self.out("OA", lo, hi, st, g)
        self.order[g] += [t for t in range(lo, hi + 1, st)]

    def OR(self, g, lo, hi, st=1):
        self.out("OR", lo, hi, st, g)
        x = set(range(lo, hi + 1, st))
        self.order[g] = [t for t in self.order[g] if t not in x]

    # --- queries
    def q(self, kind, mode, sh, ents=1, filt=0, group=1, persist=0, take=-1, style=0, write=0, lst=()):
        if mode == "X" and SHAPES[sh]["r"] is None:
            mode = "W"
        self.out("q", kind, mode, sh, ents, filt, group, persist, take, style, write, *lst)


def qshapes(comps):
    s = set(comps)
    return [i for i, x in enumerate(SHAPES) if x["q"] and set(x["ids"]) <= s]


def subset(rng, comps, big=0.25):
    k = 1
    while k < len(comps) and rng.random() < 0.45:
        k += 1
    return rng.sample(list(comps), k)


def pick(rng, w):
    tot = sum(w.values())
    x = rng.random() * tot
    for k, v in w.items():
        x -= v
        if x <= 0:
            return k
    return k


def rquery(h, comps, kinds="clo", modes="RWX", write=0.0, filt=0.0, ents=0.7, persist=0.5, part=0.2, styles=(0,),
           shapes=None):
    """one random query"""
    rng = h.rng
    sh = rng.choice(shapes or qshapes(comps))
    kind = rng.choice(kinds)
    mode = rng.choice(modes)
    e = 1 if rng.random() < ents else 0
    f = 0
    if kind == "c" and rng.random() < filt:
        e, f = 1, rng.choice((1, 2))
    lst = ()
    if kind == "l":
        pool = list(range(1, h.n + 1))
        if pool:
            live = h.alive or pool
            m = rng.randint(0, 2 * len(live) + 2)
            stale = rng.choice((0.0, 0.3))
            lst = [rng.choice(pool if rng.random() < stale else live) for _ in range(m)]
            if rng.random() < 0.5:
                lst.sort()
    style = rng.choice(styles)
    take = -1
    if style == 2 or style >= 5:
        take = rng.randint(0, 3)
    elif style == 0 and rng.random() < part:
        take = rng.randint(0, 3)
    w = 1 if mode != "R" and rng.random() < write else 0
    h.q(kind, mode, sh, e, f, rng.choice((1, 2)), 1 if rng.random() < persist else 0, take, style, w, lst)


CAPS = (1, 2, 3, 5, 10, 31, 32, 33, 64, 100)


def unknown(h, rng, comps, destroy):
    """a handle the store never gave out in every call; destroy: also destroyed (builds with debug assertions refuse it)"""
    if not h.n:
        return
    z = rng.random()
    mode, num = ("n", 0) if z < 0.15 else ("c", rng.choice((0, 0, 0, 1, 2, 30, 31, 32, 33, 64, 500))) if z < 0.5 else (
        "a", rng.randint(0, len(h.alive) + 3) if z < 0.9 else rng.choice((31, 32, 33, 63, 64, 1000)))
    ts = [rng.choice(h.alive or range(1, h.n + 1)) for _ in range(2)]
    h.out("X", mode, num, rng.choice((1, 1, 1, 2, 60)), rng.choice(qshapes(comps)), rng.choice((1, 2)), int(destroy), *ts)


def observe(h, obs, comps, rng, q=None, sample=None, ntags=3, groups=GROUPS):
    ts = ()
    if sample and not isinstance(sample, int):
        ts = sorted({t for t in sample if 1 <= t <= h.n})
        if not ts:
            return
    elif sample and h.n > sample:
        ts = sorted(set(rng.sample(range(1, h.n + 1), sample)) | set(h.touched[-10:]))
    for o in obs:
        if o == "ord":
            for g in range(1, groups + 1):
                h.out("ord", g, *ts)
        elif o == "tags":
            h.out("tags", ntags, *ts)
        elif o == "q":
            rquery(h, comps, **(q or {}))
        elif o == "get":
            if h.n:
                t = rng.choice(h.alive) if h.alive and rng.random() < 0.8 else rng.randint(1, h.n)
                x = subset(rng, comps)
                if not index(x):
                    x = [rng.choice(x)]
                h.out("get", t, h.shape(x), rng.choice((0, 1, 2)))
        elif o in ("alive", "cap", "end"):
            h.out(o)
        elif o in ("unk", "unk!"):
            unknown(h, rng, comps, o == "unk!")
        else:
            h.out(o, *ts)


def rand_hist(rng, name, ops, obs, nops=40, cap=None, comps=(1, 2, 3, 4, 5), maxlive=8, refuse=False, stale=0.0,
              every=1, q=None, ntags=3, groups=GROUPS, endobs=(), sample=None, idsets=None, report=None,
              cidsets=None):
    """ops: weights over c k a r d s t+ t- oa on op or q x; refuse: also calls the specification refuses;
    stale: probability of using a dead handle where the call is then to be ignored."""
    h = H(rng, name, rng.choice(CAPS) if cap is None else cap)
    # a history uses part of the component types, so that component sets recur
    cs = list(comps)
    rng.shuffle(cs)
    cs = cs[:rng.randint(1, min(len(cs), 5))]
    if report:
        h.out("comps", *report)
    if idsets:
        fixed = rng.sample(idsets, min(len(idsets), rng.randint(2, 9)))
        cs = list(comps)
    else:
        fixed = [subset(rng, cs) for _ in range(rng.randint(1, 6))]
    cfixed = cidsets or fixed

    def ids():
        if idsets:
            return rng.choice(fixed)
        return rng.choice(fixed) if rng.random() < 0.7 else subset(rng, cs)

    def tok(p=None):
        p = stale if p is None else p
        if h.dead and rng.random() < p:
            return rng.choice(h.dead[-6:])
        return rng.choice(h.alive)

    for i in range(nops):
        o = pick(rng, ops)
        if not h.alive and o not in ("c", "k", "x", "kx"):
            o = "c" if ops.get("c", 0) else "k"
        if len(h.alive) >= maxlive and o in ("c", "k"):
            o = "d" if ops.get("d") else "a"
        if o == "c":
            h.c()
        elif o == "k":
            h.k(rng.choice(cfixed) if idsets else ids())
        elif o == "kx":
            h.kx()
        elif o == "d":
            h.d(rng.choice((rng.choice(h.alive), h.alive[-1], h.alive[0])))
        elif o == "x":
            if h.dead:
                h.out("d", rng.choice(h.dead))
        elif o == "a":
            h.a(tok(), ids())
        elif o == "r":
            t = tok()
            have = list(h.comps.get(t, ()))
            z = rng.random()
            if have and z < 0.4:
                x = rng.sample(have, rng.randint(1, len(have)))
                h.r(t, x if index(x) else ids())
            elif have and z < 0.5 and index(have):
                h.r(t, have)
            else:
                h.r(t, ids())
        elif o == "s":
            t = tok()
            have = list(h.comps.get(t, ()))
            x = rng.sample(have, rng.randint(1, len(have))) if have and rng.random() < 0.8 else ids()
            h.s(t, x if index(x) else ids())
        elif o == "t+":
            h.tag(tok(), rng.randint(1, ntags), True)
        elif o == "t-":
            h.tag(tok(), rng.randint(1, ntags), False)
        elif o in ("oa", "on", "op", "or"):
            g = rng.randint(1, groups)
            t = tok()
            mem = h.order[g]
            if o == "or":
                h.orem(g, rng.choice(mem) if mem and rng.random() < 0.8 else t)
            else:
                # avoid refusals unless asked for
                free = [x for x in h.alive if x not in mem]
                if refuse and rng.random() < 0.3:
                    # refused: a member again, a foreign or own anchor
                    if o == "oa" or not mem:
                        if mem:
                            o2 = rng.choice(("oa", "on", "op"))
                            t = rng.choice(mem)
                            if o2 == "oa":
                                h.oa(g, t)
                            else:
                                h.oplace(o2 == "on", g, t, rng.choice(mem))
                        elif free:
                            a = rng.choice(h.alive)
                            h.oplace(rng.random() < 0.5, g, rng.choice(free), a)
                    else:
                        t = rng.choice(h.alive)
                        a = rng.choice((t, rng.choice(h.alive), rng.choice(free) if free else t))
                        h.oplace(o == "on", g, t, a)
                    observe(h, obs, cs, rng, q, sample, ntags, groups)
                    continue
                if t in h.comps and (t in mem):
                    if not free:
                        continue
                    t = rng.choice(free)
                if o == "oa":
                    h.oa(g, t)
                elif mem:
                    a = rng.choice((mem[0], mem[-1], rng.choice(mem)))
                    if stale and h.dead and rng.random() < stale / 2:
                        a = rng.choice(h.dead[-6:])
                    h.oplace(o == "on", g, t, a)
                elif t in h.comps:
                    h.oa(g, t)
                else:
                    continue
        elif o == "q":
            rquery(h, cs, **(q or {}))
        if every == 1 or i % every == every - 1:
            observe(h, obs, cs, rng, q, sample, ntags, groups)
    observe(h, tuple(obs) + tuple(endobs), cs, rng, q, sample, ntags, groups)
    return h.hist()


# ------------------------------------------------------------------ other scenarios

def grow_hist(rng, name, obs, cap, total, ops, comps=(1, 2, 3), destroy=0.15, ntags=3, groups=2, q=None, sample=12):
    """entities are created one by one across capacity growths; observed closely around the boundaries"""
    h = H(rng, name, cap)
    marks = {1, 2, total}
    c = max(1, cap)
    while c <= total:
        marks |= {c - 1, c, c + 1, c + 2}
        c *= 2
    for m in (32, 64, 96, 128, 256):
        marks |= {m - 1, m, m + 1, m + 2}
    cs = list(comps)
    sets = [subset(rng, cs) for _ in range(3)]
    while h.n < total:
        if "k" in ops and rng.random() < 0.7:
            h.k(rng.choice(sets))
        else:
            h.c()
        t = h.n
        for _ in range(2):
            o = rng.choice([x for x in ops if x not in "ck"] or ["c"])
            x = rng.choice((t, rng.choice(h.alive))) if h.alive else t
            if x not in h.comps:
                continue
            if o == "a":
                h.a(x, rng.choice(sets))
            elif o == "r":
                h.r(x, rng.choice(sets))
            elif o == "s":
                h.s(x, rng.choice(sets))
            elif o == "t+":
                h.tag(x, rng.randint(1, ntags), True)
            elif o == "t-":
                h.tag(x, rng.randint(1, ntags), False)
            elif o == "oa":
                g = rng.randint(1, groups)
                if x not in h.order[g]:
                    h.oa(g, x)
            elif o in ("on", "op"):
                g = rng.randint(1, groups)
                if x not in h.order[g] and h.order[g]:
                    h.oplace(o == "on", g, x, rng.choice(h.order[g]))
            elif o == "or":
                h.orem(rng.randint(1, groups), x)
        if rng.random() < destroy and len(h.alive) > 2:
            h.d(rng.choice((rng.choice(h.alive), h.alive[-1])))
        if h.n in marks or rng.random() < 0.04:
            observe(h, obs, cs, rng, q, None if h.n < 24 else sample, ntags, groups)
    observe(h, obs, cs, rng, q, sample, ntags, groups)
    return h.hist()


BOUNDS = sorted(set(list(range(1, 41)) + list(range(60, 71)) + list(range(93, 101)) + [127, 128, 129, 130, 159, 160, 161, 255, 256,
                                                                                    257]))


def large_hist(rng, name, obs, turn=65536, ntags=2, cap=None):
    """more entities than 16 bits can number: those behind the turn must not be taken for the first ones"""
    h = H(rng, name, rng.choice((0, turn - 1, turn, turn + 1, 40)) if cap is None else cap)
    near = [turn - 1, turn, turn + 1, turn + 2, turn + 3, turn + 32, turn + 33]
    low = [1, 2, 3, 4, 32, 33]

    def look():
        ts = low + near + rng.sample(range(1, h.n + 1), 12) + [h.n]
        ts = [t for t in ts if t <= h.n]
        for o in obs:
            if o == "ord":
                h.out("ord", 1, *ts)
            elif o == "tags":
                h.out("tags", ntags, *ts)
            elif o == "q":
                h.q("o", "R", rng.choice(index([1])), group=1)
                h.q("l", "R", rng.choice(index([1])), lst=ts)
                h.q("c", "R", rng.choice(index([2])))
            elif o in ("alive", "cap", "end"):
                h.out(o)
            else:
                h.out(o, *ts)

    for t in range(1, 41):
        h.c()
    for t in low:
        h.a(t, rng.choice(([1], [1, 2])))
    for t in low[::2]:
        h.tag(t, 1, True)
        h.oa(1, t)
    h.C(turn - 42)
    for _ in range(4):
        h.c()
    h.C(60, [1])
    look()
    for t in near:
        if rng.random() < 0.8:
            h.a(t, rng.choice(([1], [2], [1, 2])))
        if rng.random() < 0.7:
            h.tag(t, rng.choice((1, 2)), True)
        if rng.random() < 0.8:
            if rng.random() < 0.5:
                h.oa(1, t)
            else:
                h.oplace(rng.random() < 0.5, 1, t, rng.choice(h.order[1]))
    look()
    for t in rng.sample(near, 3) + rng.sample(low, 2):
        h.d(t)
    look()
    lo = rng.randint(1, 400)
    h.D(turn - 500 + lo, turn + 50, 3) if not set(range(turn - 500 + lo, turn + 51, 3)) & set(h.dead) else h.D(100, 60000, 977)
    for _ in range(8):
        t = h.k([1]) if rng.random() < 0.5 else h.c()
        if rng.random() < 0.6:
            h.oa(1, t)
        if rng.random() < 0.6:
            h.tag(t, 1, True)
    look()
    return h.hist()


def archs_hist(rng, name, obs, count=298):
    """more archetypes than 8 bits can number: every subset of up to three of twelve types"""
    h = H(rng, name, rng.choice((0, 255, 256, 300, 1)))
    ids = list(range(6, 18))
    h.out("comps", *[index([i])[0] for i in ids])
    sets = [c for k in (1, 2, 3) for c in itertools.combinations(ids, k)]
    rng.shuffle(sets)
    sets = sets[:count]
    at = {}
    for j, c in enumerate(sets):
        c = list(c)
        rng.shuffle(c)
        t = h.k(c[:1])
        for x in c[1:]:
            h.a(t, [x])
        at[t] = list(c)
        if j % 60 == 59 or j == len(sets) - 1:
            look(h, obs, rng, 12, [[i] for i in ids])
    for j in range(90):
        t = rng.choice(h.alive)
        have = sorted(h.comps[t])
        z = rng.random()
        if z < 0.35 and len(have) > 1:
            h.r(t, [rng.choice(have)])
        elif z < 0.7:
            h.a(t, [rng.choice(ids)])
        elif z < 0.85:
            h.d(t)
        else:
            h.k([rng.choice(ids)])
        if j % 12 == 11:
            look(h, obs, rng, 12, [[i] for i in ids])
    look(h, obs, rng, 40, [[i] for i in ids])
    return h.hist()


def wide_hist(rng, name, obs, n=66000):
    """queries with more items, runs of rows and list positions than 16 bits can number"""
    n += rng.randint(0, 600)
    h = H(rng, name, rng.choice((0, n, 65536)))
    one = [rng.choice((1, 2, 3))]
    two = [rng.choice([c for c in (1, 2, 3) if c not in one])]
    if "o" in obs:
        # every row is a run of its own
        h.C(n, one)
        a, b = rng.sample((1, 2), 2)
        h.OA(1, a, n, 2)
        h.OA(1, b, n, 2)
        h.q("o", rng.choice("RW"), rng.choice(index(one)), ents=rng.randint(0, 1), group=1)
        h.D(65000, 65900, 7)
        h.oa(1, h.k(one + two))
        h.q("o", "R", rng.choice(index(one)), group=1, persist=1)
        h.q("o", "R", rng.choice(index(two)), group=1)
    if "c" in obs:
        # rows behind 65536, half of them tagged
        h.C(n - h.n if n > h.n + 9 else 9, one)
        h.T(rng.randint(1, 9), n, 2, 1)
        h.q("c", rng.choice("RW"), rng.choice(index(one)), filt=1)
        h.q("c", "R", rng.choice(index(one)), style=rng.choice((0, 1, 3, 4)))
    if "l" in obs:
        # most positions are skipped
        h.C(300)
        for i in range(40):
            h.k(one if i % 3 else two)
        dead = h.c()
        h.d(dead)
        blank = rng.randint(h.n - 340, h.n - 45)
        some = [t for t in range(h.n - 40, h.n)]
        ls = []
        while len(ls) < n:
            ls += [rng.choice((dead, blank))] * rng.randint(200, 3000)
            ls += rng.choices(some, k=rng.randint(1, 8))
        ls += rng.choices(some, k=30)
        h.q("l", rng.choice("RW"), rng.choice(index(one)), ents=rng.randint(0, 1), lst=ls)
    return h.hist()


def pages_hist(rng, name, obs):
    """more pages than 8 bits can number: two or three rows in each"""
    fam = rng.choice(((27, 28), (30, 31)))
    a, b = [fam[0]], [fam[1]]
    h = H(rng, name, rng.choice((0, 511, 512, 700)))
    h.out("comps", index(a)[0], index(b)[0])
    sets = [a, b, list(fam)]
    rows = 2 if fam[0] == 27 else 3
    h.C(rng.randint(250, 262) * rows, a)
    look(h, obs, rng, 12, sets)
    for i in range(8):
        h.k(a)
    look(h, obs, rng, 12, sets)
    for i in range(25):
        t = rng.choice(h.alive if rng.random() < 0.4 else h.alive[:6] + h.alive[-6:])
        z = rng.random()
        if z < 0.35:
            h.a(t, b)
        elif z < 0.5:
            h.r(t, a)
        elif z < 0.8:
            h.d(t)
        else:
            h.k(rng.choice((a, b)))
        if i % 6 == 5:
            look(h, obs, rng, 12, sets)
    lo = rng.randint(1, 5)
    st = rng.choice((2, 3))
    gone = [t for t in range(lo, 400, st) if t in h.comps]
    for x, y in zip([lo] + [g + st for g in range(lo, 400, st) if g not in h.comps],
                    [g - st for g in range(lo, 400, st) if g not in h.comps] + [max(gone)]):
        if x <= y:
            h.D(x, y, st)
    look(h, obs, rng, 12, sets)
    h.C(60, list(fam) if rng.random() < 0.3 else b)
    look(h, obs, rng, 30, sets)
    return h.hist()


def crowd_hist(rng, name, obs):
    """sets of up to 85 component types"""
    h = H(rng, name, rng.choice((1, 2, 7, 40)))
    h.out("comps", *[LONE[c] for c in CROWD])
    multi = [x for x in SHAPES[M0:M1] if len(x["ids"]) > 1]
    order = rng.sample(CROWD, len(CROWD))
    chunks = [[c] for c in order[:rng.choice((18, 33, 34, 66, 85, 85))]] + [rng.choice(multi)["ids"] for _ in range(4)]
    rng.shuffle(chunks)
    if rng.random() < 0.3:
        chunks = [[c] for c in order]
    for i in range(rng.choice((2, 3, 5))):
        h.c()

    def churn():
        z = rng.random()
        if z < 0.3 and len(h.alive) > 2:
            h.d(rng.choice(h.alive))
        elif z < 0.6:
            h.k(rng.choice(multi)["ids"])
        else:
            h.c()
        h.a(h.alive[-1], chunks[0])

    def seen():
        for o in obs:
            if o == "q":
                x = rng.choice(multi)["ids"]
                m = rng.choice("RWX")
                k = rng.choice("clo")
                lst = [rng.choice(h.alive) for _ in range(5)] if k == "l" else ()
                h.q(k, m, rng.choice(index(x, q=True)), group=1, write=int(m != "R" and rng.random() < 0.5), lst=lst)
            elif o == "get":
                t = rng.choice(h.alive)
                h.out("get", t, h.shape(rng.choice(chunks)), rng.choice((0, 1, 2)))
            elif o == "ord":
                h.out("ord", 1)
            elif o == "tags":
                h.out("tags", 2)
            else:
                h.out(o)

    every = max(2, len(chunks) // 6)
    for i, c in enumerate(chunks):
        for t in list(h.alive):
            if rng.random() < 0.93 and t in h.alive:
                h.a(t, c)
                if i % 9 == 4 and rng.random() < 0.3 and t not in h.order[1]:
                    h.oa(1, t)
        if rng.random() < 0.12:
            churn()
        if i % every == every - 1:
            seen()
    # removals and additions in a set that stays large
    for i in range(16):
        t = rng.choice(h.alive)
        z = rng.random()
        c = rng.choice(chunks)
        if z < 0.35:
            h.r(t, c)
        elif z < 0.6:
            h.a(t, c)
        elif z < 0.75:
            h.s(t, c)
        elif z < 0.85 and len(h.alive) > 1:
            h.d(t)
        else:
            churn()
        if i % 4 == 3:
            seen()
    seen()
    return h.hist()


def look(h, obs, rng, sample, sets):
    ts = sorted(set(rng.sample(range(1, h.n + 1), min(sample, h.n))) | set(h.touched[-12:]) | set(range(max(1, h.n - 4), h.n + 1)))
    for o in obs:
        if o == "ord":
            h.out("ord", 1, *ts)
        elif o == "tags":
            h.out("tags", 2, *ts)
        elif o == "q":
            # tuples that can be queried
            can = [i for x in sets + [[7, 10], [11, 15, 16]] for i in index(x) if SHAPES[i]["q"]]
            for k in "clo":
                m = rng.choice("RW")
                h.q(k, m, rng.choice(can), group=1, write=int(m == "W" and rng.random() < 0.5), lst=ts if k == "l" else ())
        elif o == "get":
            for t in ts[:6]:
                h.out("get", t, h.shape(rng.choice(sets)), rng.choice((0, 1, 2)))
        elif o in ("alive", "cap", "end"):
            h.out(o)
        else:
            h.out(o, *ts)


def edges(h, cap):
    b = {1, 2, cap - 1, cap, cap + 1, cap + 2, 2 * cap, 2 * cap + 1, h.n - 1, h.n}
    for w in (32, 64, 96, 128, 160, 256):
        b |= {w, w + 1}
    return sorted(t for t in b if 1 <= t <= h.n)


def bound_hist(rng, name, cap, obs, comps=(1, 2, 3), ntags=2, groups=2, q=None, endobs=(), tags=True, orders=True, report=None):
    """a store filled exactly to its capacity, with tags and order at the edges, then grown past it, twice"""
    h = H(rng, name, cap)
    if report:
        h.out("comps", *report)
    sets = [subset(rng, comps) for _ in range(2)]

    def mark():
        e = [t for t in edges(h, cap) if t in h.comps]
        rng.shuffle(e)
        for t in e[:rng.randint(1, len(e))]:
            z = rng.random()
            if tags and z < 0.5:
                h.tag(t, rng.randint(1, ntags), rng.random() < 0.8)
            elif orders and z < 0.75:
                g = rng.randint(1, groups)
                if t in h.order[g]:
                    h.orem(g, t)
                elif h.order[g] and rng.random() < 0.6:
                    h.oplace(rng.random() < 0.5, g, t, rng.choice(h.order[g]))
                else:
                    h.oa(g, t)
            elif z < 0.9:
                h.a(t, rng.choice(sets))
            elif h.comps[t]:
                h.r(t, rng.choice(sets))

    def look():
        observe(h, obs, comps, rng, q, edges(h, cap), ntags, groups)

    if cap > 1:
        h.C(cap - 1 if rng.random() < 0.7 else cap, rng.choice(sets) if rng.random() < 0.7 else None)
    else:
        h.c()
    mark()
    look()
    for _ in range(3):
        (h.c() if rng.random() < 0.4 else h.k(rng.choice(sets)))
        if rng.random() < 0.5:
            mark()
        look()
    if rng.random() < 0.5:
        t = rng.choice([t for t in edges(h, cap) if t in h.comps])
        h.d(t)
        look()
        h.c()
        look()
    if h.n < 2 * cap - 1 and cap < 140:
        h.C(2 * cap - 1 - h.n, rng.choice(sets) if rng.random() < 0.7 else None)
        mark()
    for _ in range(3):
        h.k(rng.choice(sets))
        look()
    observe(h, endobs, comps, rng)
    return h.hist()


def lone_tag(rng, name, cap, comps=(1, 2), q=None):
    """one tagged entity at a time, at every place of the bitmap"""
    h = H(rng, name, cap)
    n = cap + rng.choice((-1, 0, 0, 0, 1, 5))
    ids = [rng.choice(comps)]
    h.C(max(n, 1), ids)
    sh = index(ids, True)[0]
    for t in rng.sample(edges(h, cap), len(edges(h, cap))):
        h.tag(t, 1, True)
        h.q("c", rng.choice("RW"), sh, 1, 1)
        if rng.random() < 0.3:
            h.q("c", "R", sh, 1, 2)
        h.tag(t, 1, False)
    h.q("c", "R", sh, 1, 1)
    return h.hist()


def split(rng, b):
    """(part, leftovers) of an arithmetic run of tokens"""
    lo, hi, st = b
    n = (hi - lo) // st + 1
    z = rng.random()
    if n == 1 or z < 0.2:
        return b, []
    if z < 0.45:
        return (lo, lo + (n - 1) // 2 * 2 * st, 2 * st), [(lo + st, lo + st + (n - 2) // 2 * 2 * st, 2 * st)]
    i = rng.randint(0, n - 1)
    j = rng.randint(i, n - 1)
    if z < 0.7:
        i = 0
    elif z < 0.9:
        j = n - 1
    left = []
    if i > 0:
        left.append((lo, lo + (i - 1) * st, st))
    if j < n - 1:
        left.append((lo + (j + 1) * st, lo + (n - 1) * st, st))
    return (lo + i * st, lo + j * st, st), left


def phased_hist(rng, name, obs, steps, scale, ops, comps=(1, 2, 3, 4, 5), cap=None, sample=20, q=None, ntags=2, groups=2,
                maxn=None, single=True, every=1, endobs=()):
    """bulk operations on runs of entities; ops: weights over C D A R T+ T- OA OR"""
    h = H(rng, name, rng.choice((1, 10, 64, 100)) if cap is None else cap)
    if max(comps) > 5:
        h.out("comps", *[index([c])[0] for c in comps])
    batches = []
    cs = rng.sample(list(comps), rng.randint(1, len(comps)))
    sets = [subset(rng, cs) for _ in range(3)]
    for i in range(steps):
        o = pick(rng, ops)
        if not batches or (o == "C" and (maxn is None or h.n < maxn)):
            lo, hi = h.C(rng.randint(max(1, scale // 4), scale), rng.choice(sets) if rng.random() < 0.8 else None)
            batches.append((lo, hi, 1))
        else:
            b = batches.pop(rng.randrange(len(batches)))
            part, left = split(rng, b)
            lo, hi, st = part
            if o == "D":
                h.D(lo, hi, st)
                batches += left
            else:
                if o == "A":
                    h.A(lo, hi, st, rng.choice(sets))
                elif o == "R":
                    h.R(lo, hi, st, rng.choice(sets))
                elif o in ("T+", "T-"):
                    h.T(lo, hi, st, rng.randint(1, ntags), o == "T+")
                elif o in ("OA", "OR"):
                    g = rng.randint(1, groups)
                    mem = set(h.order[g])
                    if (hi - lo) // st > 400:
                        hi = lo + 400 * st
                    if o == "OR":
                        h.OR(g, lo, hi, st)
                    elif not any(t in mem for t in range(lo, hi + 1, st)):
                        h.OA(g, lo, hi, st)
                batches.append(b)
        # a few single operations in between
        if single and h.alive:
            for _ in range(rng.randint(0, 3) if single is True else rng.randint(0, single)):
                t = rng.choice(h.alive)
                z = rng.random()
                if z < 0.15 and index(sorted(h.comps[t])):
                    h.a(t, sorted(h.comps[t]))
                elif z < 0.3:
                    h.a(t, rng.choice(sets))
                elif z < 0.5:
                    h.r(t, rng.choice(sets))
                elif z < 0.8:
                    h.s(t, rng.choice(sets))
        if every == 1 or i % every == every - 1:
            observe(h, obs, cs, rng, q, sample, ntags, groups)
    observe(h, tuple(obs) + tuple(endobs), cs, rng, q, sample, ntags, groups)
    return h.hist()


def resources(rng, name, kind, nops, cap=None, refuse=True, grow=0.4, unknown=0.0):
    """history of one resource store"""
    cap = rng.choice((-1, 0, 1, 2, 3, 8, 33)) if cap is None else cap
    lines, live, dead, n = [], [], [], 0
    bias = rng.choice((grow, 0.25, 0.6))
    for _ in range(nops):
        z = rng.random()
        if not live or z < bias * 0.6:
            lines.append("n")
            n += 1
            live.append(n)
        elif refuse and dead and z < bias * 0.6 + 0.08:
            lines.append("%s %d" % (rng.choice("gwpx"), rng.choice(dead[-5:])))
        else:
            t = rng.choice((rng.choice(live), live[-1], live[0]))
            o = rng.choice("gggwwpxx")
            lines.append("%s %d" % (o, t))
            if o == "x":
                live.remove(t)
                dead.append(t)
        if rng.random() < 0.02:
            lines.append("u %d" % rng.choice((1, 2, 50)))
        if rng.random() < unknown:
            lines.append("X %s %d %d" % (rng.choice("naaaaa"), rng.choice((rng.randint(0, len(live) + 2), 31, 33, 700)),
                                         rng.choice((1, 1, 2, 60))))
    for t in live:
        lines.append("g %d" % t)
    # a destructor that panics when the store is dropped
    lines.append("end %d" % rng.choice(live) if live and rng.random() < 0.3 else "end")
    return ("HR", name, "%s %d" % (kind, cap), lines)


def large_resources(rng, name, kind, turn=65536, refuse=True):
    """more resources than 16 bits can number"""
    n = turn + rng.randint(20, 300)
    cap = rng.choice((-1, 1, turn - 1, turn, turn + 1, n + 40))
    near = [turn - 1, turn, turn + 1, turn + 2, turn + 3, turn + 9]
    lines = ["n"] * 12 + ["N %d" % (n - 12)]
    some = list(range(1, 13)) + near
    rng.shuffle(some)
    for t in some:
        lines.append("%s %d" % (rng.choice("gwp"), t))
    lines += ["g %d" % t for t in range(1, 13)] + ["g %d" % t for t in near]
    gone = rng.sample(near, 3) + rng.sample(range(1, 13), 3)
    rng.shuffle(gone)
    lines += ["x %d" % t for t in gone]
    if refuse:
        lines += ["%s %d" % (rng.choice("gwpx"), t) for t in gone]
    lines += ["n"] * 4
    lines.append("Y %d %d %d" % (turn - rng.choice((900, 60000)), turn - 2, rng.choice((1, 7, 64))))
    lines.append("N %d" % rng.choice((10, 200)))
    left = [t for t in list(range(1, 13)) + near if t not in gone]
    lines += ["g %d" % t for t in left]
    lines.append("G %d %d 1" % (n + 1, n + 10))
    lines.append("G %d %d 1" % (turn + 10, n))
    lines.append("end %d" % rng.choice(left) if rng.random() < 0.5 else "end")
    return ("HR", name, "%s %d" % (kind, cap), lines)


SINGLES = sorted({x["ids"][0] for x in SHAPES if len(x["ids"]) == 1})


def archetypes(rng, name, nops):
    """history of archetype constructions and comparisons"""
    lines, regs, b = [], [], None
    lens = [i for i, x in enumerate(SHAPES)]
    pool = rng.choice((list(range(1, 6)), list(range(6, 18)), list(range(1, 27)), [1, 2, 3], list(range(18, 27)), CROWD))
    shp = [i for i in lens if set(SHAPES[i]["ids"]) <= set(pool)]

    def many():
        if pool is CROWD and rng.random() < 0.6:
            return rng.sample(pool, rng.choice((15, 16, 17, 32, 33, 34, 60, 64, 65, len(pool))))
        return [rng.choice(pool) for _ in range(rng.randint(0, 6))]

    for _ in range(nops):
        z = rng.random()
        if z < 0.15 or not regs:
            i = rng.choice(shp)
            lines.append("with %d" % i)
            regs.append(set(SHAPES[i]["ids"]))
        elif z < 0.2:
            x = rng.randint(1, len(regs))
            lines.append("clone %d" % x)
            regs.append(regs[x - 1])
        elif z < 0.5:
            if b is None or rng.random() < 0.15:
                lines.append("bnew")
                b = set()
            o = rng.choice(("binc", "btin", "btin", "btex", "bexc", "barc", "build", "build"))
            if o in ("binc", "bexc"):
                i = rng.choice(shp)
                lines.append("%s %d" % (o, i))
                (b.update if o == "binc" else b.difference_update)(SHAPES[i]["ids"])
            elif o in ("btin", "btex"):
                m = many()
                lines.append("%s %s" % (o, " ".join(map(str, m))))
                (b.update if o == "btin" else b.difference_update)(m)
            elif o == "barc":
                x = rng.randint(1, len(regs))
                lines.append("barc %d" % x)
                b.update(regs[x - 1])
            elif b:
                lines.append("build")
                regs.append(set(b))
        elif z < 0.65:
            lines.append("show %d" % rng.randint(1, len(regs)))
        elif z < 0.82:
            lines.append("cmp %d %d" % (rng.randint(1, len(regs)), rng.randint(1, len(regs))))
        else:
            x = rng.randint(1, len(regs))
            m = many()
            if rng.random() < 0.5:
                m = list(regs[x - 1])
                rng.shuffle(m)
                if rng.random() < 0.5:
                    m += [rng.choice(m)]
                if rng.random() < 0.3:
                    m = m[1:]
                if rng.random() < 0.3:
                    m += [rng.choice(pool)]
            lines.append("ids %d %s" % (x, " ".join(map(str, m))))
    for x in range(1, len(regs) + 1):
        lines.append("show %d" % x)
    return ("HA", name, "", lines)
