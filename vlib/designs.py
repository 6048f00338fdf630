"""Design models: implementation-shaped TLA+ modules, checked by TLC against the abstract ones, and the histories for the
real code that are derived from their state graphs (every transition of the graph is taken)."""
import json, random, threading
from collections import deque
from concurrent.futures import ThreadPoolExecutor
from vlib import common, gen, probes
from vlib.gen import H, observe
from vlib.shapes import FAMILIES, index


def cfg(m, consts, walk=False, bug=""):
    t = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
    t += ["INVARIANT " + i for i in m["inv"]]
    t += ["PROPERTY " + p for p in m["prop"]]
    if walk:
        t += (["VIEW View"] if m["view"] else []) + ["ACTION_CONSTRAINT Emit"]
    else:
        if m["view"]:
            t.append("VIEW " + m["view"])
        if m.get("constraint"):
            t.append("CONSTRAINT " + m["constraint"])
    t.append('CONSTANTS %s Bug="%s"' % (consts, bug))
    return "\n".join(t) + "\n"


# quick, thorough: constants of the exhaustive checks; walk: constants of the graph that is replayed;
# bugs: planted mistakes of the design with the constants under which TLC must reject them
KINDS = 'Kinds={"c","l","o"} '
MODELS = dict(
    HandlesImpl=dict(
        inv=["Bounds", "Small", "UnknownDead"], prop=["Refines"], view="CheckView",
        quick=["MaxId=3 MaxVer=3 Cap0=1 Word=2", "MaxId=3 MaxVer=2 Cap0=0 Word=2"],
        thorough=["MaxId=4 MaxVer=3 Cap0=1 Word=2", "MaxId=4 MaxVer=2 Cap0=0 Word=4", "MaxId=4 MaxVer=2 Cap0=3 Word=2"],
        walk="MaxId=4 MaxVer=30 Cap0=1 Word=2", walk_thorough="MaxId=5 MaxVer=30 Cap0=1 Word=2",
        what="ids, versions, capacity and alive bits of entities_container.rs refine Handles",
        bugs=[(b, "MaxId=3 MaxVer=3 Cap0=%d Word=2" % dict(cap0=0, words=3).get(b, 1))
              for b in ("words", "cap0", "bitsnotgrown", "noalive", "noretire", "trim", "gapdup", "edge", "noversion")]),
    OrderLinks=dict(
        inv=["Links"], prop=["Refines", "RefusedRight"], view="CheckView", constraint="Bounded",
        quick=["MaxId=2 MaxN=5 G={1} Cap0=1", "MaxId=1 MaxN=3 G={1,2} Cap0=0"],
        thorough=["MaxId=3 MaxN=6 G={1} Cap0=1", "MaxId=2 MaxN=4 G={1,2} Cap0=0"],
        walk="MaxId=3 MaxN=5 G={1} Cap0=1", walk_thorough="MaxId=4 MaxN=5 G={1} Cap0=1",
        what="links, heads and tails of order_group_container.rs refine the order of Store",
        bugs=[(b, "MaxId=3 MaxN=5 G={1} Cap0=1")
              for b in ("bwdnotgrown", "noback", "keepfwd", "destroykeeps", "onlyfwd", "tailstays")]),
    TagBits=dict(
        inv=["Maps", "FilterRight"], prop=["Refines"], view="CheckView", constraint="Bounded",
        quick=["MaxId=2 MaxN=4 Tags={1,2} Cap0=1 Word=2", "MaxId=3 MaxN=5 Tags={1} Cap0=0 Word=2"],
        thorough=["MaxId=3 MaxN=6 Tags={1,2} Cap0=1 Word=2", "MaxId=4 MaxN=6 Tags={1} Cap0=0 Word=4",
                  "MaxId=5 MaxN=7 Tags={1} Cap0=3 Word=2"],
        walk="MaxId=3 MaxN=0 Tags={1,2} Cap0=1 Word=2", walk_thorough="MaxId=4 MaxN=0 Tags={1,2} Cap0=1 Word=2",
        what="bitmaps of tag_container.rs and bitvec_utils.rs refine the tags of Store; blocks go back as allocated",
        bugs=[(b, "MaxId=3 MaxN=5 Tags={1,2} Cap0=1 Word=2")
              for b in ("ceil", "samesize", "nocopy", "nogrow", "oldcap", "keeptags", "firsttag", "toggle")]),
    ResourceSlots=dict(
        inv=["AllDropped", "NotEarly", "Slots"], prop=["Refines", "NoneLost"], view="CheckView", constraint="Bounded",
        quick=["MaxId=3 MaxN=5 Cap0=1", "MaxId=2 MaxN=5 Cap0=0"],
        thorough=["MaxId=4 MaxN=7 Cap0=1", "MaxId=4 MaxN=6 Cap0=0", "MaxId=4 MaxN=6 Cap0=3"],
        walk="MaxId=3 MaxN=0 Cap0=1", walk_thorough="MaxId=4 MaxN=0 Cap0=1",
        what="slots of resource_store.rs refine Resources; every value is dropped once",
        bugs=[(b, "MaxId=3 MaxN=5 Cap0=1")
              for b in ("copyshort", "assigns", "takekeeps", "dropall", "dropgaps", "dropfew", "faultstops")]),
    Pages=dict(
        inv=["Structure"], prop=["Refines"], view="View",
        quick=["Types={1,2} Rows=2 Pages0=5 MaxLive=3 MaxN=0 Vals={1} Down=FALSE", "Types={1,2} Rows=3 Pages0=1 MaxLive=3 MaxN=0 Vals={1} Down=FALSE"],
        thorough=["Types={1,2} Rows=2 Pages0=2 MaxLive=5 MaxN=0 Vals={1} Down=FALSE", "Types={1,2,3} Rows=3 Pages0=5 MaxLive=2 MaxN=0 Vals={1} Down=FALSE",
                  "Types={1,2} Rows=4 Pages0=5 MaxLive=5 MaxN=0 Vals={1} Down=FALSE"],
        walk="Types={1,2} Rows=2 Pages0=5 MaxLive=3 MaxN=0 Vals={1} Down=FALSE",
        walk_thorough="Types={1,2} Rows=2 Pages0=5 MaxLive=4 MaxN=0 Vals={1} Down=FALSE",
        what="archetypes, pages and free lists of archetypes_container.rs refine the component values of Store",
        bugs=[(b, "Types={1,2} Rows=2 Pages0=2 MaxLive=3 MaxN=0 Vals={1} Down=FALSE")
              for b in ("sortedfree", "keepfree", "capstale", "rowsnotmoved", "indexstays", "nocopy")]),
    Twins=dict(
        inv=["SameAnswers", "SameChoice"], prop=[], view="CheckView",
        quick=["MaxId=3 MaxVer=3 Cap0=1 Word=2"], thorough=["MaxId=4 MaxVer=3 Cap0=1 Word=2", "MaxId=4 MaxVer=2 Cap0=3 Word=2"],
        what="two copies of HandlesImpl given the same calls answer the same",
        bugs=[("anygap", "MaxId=3 MaxVer=3 Cap0=1 Word=2")]),
    TwinPages=dict(
        inv=["SameAnswers"], prop=[], view="View",
        quick=["Types={1,2} Rows=2 Pages0=2 MaxLive=3 MaxN=0 Vals={1}"],
        thorough=["Types={1,2} Rows=2 Pages0=2 MaxLive=4 MaxN=0 Vals={1}", "Types={1,2} Rows=3 Pages0=1 MaxLive=4 MaxN=0 Vals={1}"],
        what="two copies of Pages given the same calls, their pages in opposite order of memory, answer the same",
        bugs=[("byaddress", "Types={1,2} Rows=2 Pages0=2 MaxLive=4 MaxN=0 Vals={1}")]),
    Layout=dict(
        inv=["InPage", "Aligned", "Disjoint", "Accepted"], prop=[], view=None,
        quick=["Page=64 MaxTypes=3 Aligns={1,2,4,8,16} Ptr=4 MaxSize=22", "Page=32 MaxTypes=2 Aligns={1,2,4,8,16,32} Ptr=4 MaxSize=34"],
        thorough=["Page=96 MaxTypes=3 Aligns={1,2,4,8,16} Ptr=4 MaxSize=34", "Page=64 MaxTypes=4 Aligns={1,4,16} Ptr=4 MaxSize=18",
                  "Page=64 MaxTypes=2 Aligns={1,2,4,8,16,32,64} Ptr=8 MaxSize=66"],
        what="capacity and offsets of archetype_layout.rs: every row of every set of components, in any order of ids",
        bugs=[(b, "Page=64 MaxTypes=3 Aligns={1,2,4,8,16} Ptr=4 MaxSize=22")
              for b in ("byid", "noalign", "onerow", "rowless", "maxcap", "firstcap", "nocount", "unchecked")]),
    ArchSets=dict(
        inv=["OneEach", "Answers", "Pairs"], prop=["Sets"], view="CheckView",
        quick=["Types={1,2,3} MaxList=2"], thorough=["Types={1,2,3,4} MaxList=2", "Types={1,2,3} MaxList=4"],
        walk="Types={1,2,3} MaxList=2", walk_thorough="Types={1,2,3} MaxList=3",
        what="sorted sequences, binary searches and walks of archetype.rs and archetype_builder.rs are sets",
        bugs=[(b, "Types={1,2,3} MaxList=3") for b in ("dup", "excludestops", "unsorted", "onlycount", "merge",
                                                       "breakless", "unionswap")]),
    Queries=dict(
        inv=["Result", "Length", "Places"], prop=["Stays"], view=None,
        quick=[KINDS + "N=2 M=1 Lists=3 Rows=2 Each=0", KINDS + "N=3 M=0 Lists=3 Rows=3 Each=0"],
        thorough=[KINDS + "N=3 M=1 Lists=3 Rows=2 Each=0", KINDS + "N=4 M=0 Lists=4 Rows=4 Each=0",
                  'Kinds={"l","c"} N=3 M=2 Lists=3 Rows=2 Each=0'],
        walk=KINDS + "N=3 M=1 Lists=3 Rows=3 Each=17", walk_thorough=KINDS + "N=4 M=1 Lists=3 Rows=3 Each=61",
        what="filling and advancing of the three kinds of queries of query/*.rs give the results of Store",
        bugs=[(b, KINDS + ("N=3 M=0 Lists=3 Rows=3 Each=0" if b == "upward" else "N=2 M=1 Lists=3 Rows=2 Each=0"))
              for b in ("emptypages", "innerdead", "innerpage", "anypage", "upward", "nextpage", "noclear", "lenviews",
                        "offkept", "filterstops", "skiprun")]),
)



def strings(xs):
    return "{%s}" % ",".join('"%s"' % x for x in sorted(xs))


ALIASES = "Known=" + strings(probes.known("C26"))
SHAPES = "Known=%s " % strings(probes.known("C27"))
TYPES = 'FieldTypes={"u32","unit","arr","own","ptr"}'
MODELS.update(
    Borrows=dict(
        inv=["Held"], prop=["OnlySound"], view="View", quick=["MaxLive=2 " + ALIASES], thorough=["MaxLive=3 " + ALIASES],
        walk="MaxLive=2 " + ALIASES, walk_thorough="MaxLive=2 " + ALIASES,
        what="what the signatures of store.rs, query/*.rs and resource_store.rs let a client hold is sound",
        bugs=[(b, "MaxLive=2 " + ALIASES) for b in ("refsshared", "indexshared", "unbound", "querynotheld", "listnotheld",
                                                    "createshared", "destroyshared", "clone")]),
    Derive=dict(
        inv=["Exact"], prop=[], view=None, quick=['MaxFields=2 ' + SHAPES + TYPES], thorough=['MaxFields=3 ' + SHAPES + TYPES],
        walk='MaxFields=2 ' + SHAPES + 'FieldTypes={"u32","unit","arr"}', walk_thorough='MaxFields=3 ' + SHAPES + TYPES,
        what="the decision of the derive macros is the rule",
        bugs=[(b, "MaxFields=2 " + SHAPES + TYPES) for b in ("anykind", "notunit", "namedonly", "unitonly")]),
)

MODELS.update(
    Memory=dict(
        inv=["Backed", "GoBack", "Needed"], prop=["Ends"], view=None,
        quick=["Word=64 Limit=31 MaxCap=63"], thorough=["Word=1024 Limit=511 MaxCap=1023", "Word=256 Limit=255 MaxCap=255"],
        what="what mem_utils.rs asks the allocator for is what its users need; nothing goes on without it",
        bugs=[(b, "Word=64 Limit=31 MaxCap=63") for b in ("wraps", "firstchecked", "capfirst", "keepsize", "null",
                                                          "growunchecked", "lastunchecked", "keepold")]))

# property -> design models checked with it
USES = {}


def uses(pids, *models):
    for p in pids:
        USES.setdefault(p, []).extend(models)


uses(("C01", "C02", "C03", "C15", "C17", "C20", "C21", "C25", "C31"), "HandlesImpl")
uses(("C16", "C17", "C19"), "ResourceSlots")
uses(("C09", "C10", "C19", "C21", "C25"), "TagBits")
uses(("C11", "C12", "C13", "C25"), "OrderLinks")
uses(("C04", "C05", "C06", "C07", "C08", "C13", "C14", "C19", "C20", "C22", "C24"), "Pages")
uses(("C06", "C05", "C08"), "Layout")
uses(("C18", "C04", "C23"), "ArchSets")
uses(("C07", "C10", "C13", "C14", "C22", "C24"), "Queries")
uses(("C29", "C30"), "Twins", "TwinPages")
uses(("C28",), "HandlesImpl", "OrderLinks", "TagBits", "ResourceSlots", "Pages", "Layout")
uses(("C32",), "Memory")
uses(("C26",), "Borrows")
uses(("C27",), "Derive")


def run(ck):
    """the exhaustive checks of the design models of a property"""
    jobs = []
    for name in USES.get(ck.pid, ()):
        m = MODELS[name]
        for c in m["thorough" if ck.thorough else "quick"]:
            jobs.append((name, m, c))
    if not jobs:
        return

    def one(j):
        name, m, c = j
        return common.model(name, cfg(m, c), ck.work, workers=8 if ck.thorough else 1, timeout=3000,
                            heap="10g" if ck.thorough else "3g", deadlock=False)
    with ThreadPoolExecutor(1 if ck.thorough else 3) as ex:
        for (name, m, c), r in zip(jobs, ex.map(one, jobs)):
            ck.add_model("%s %s" % (name, c), r, m["what"])
            ck.cov["exhaustive_models"].append(name)


# ------------------------------------------------------------------ state graphs

class Graph:
    def __init__(self, lines):
        self.out, self.start, self.n = {}, None, 0
        for l in lines:
            _, a, op, b, perm = json.loads(json.loads(l))
            if self.start is None:
                self.start = a
            self.out.setdefault(a, []).append((op, b, perm))
            self.out.setdefault(b, [])
            self.n += 1

    def paths(self, rng, maxlen, skip=()):
        """walks from the start that together take every transition (but those of the operations in skip)"""
        out = {a: [e for e in es if e[0][0] not in skip] for a, es in self.out.items()}
        left = {a: list(range(len(es))) for a, es in out.items()}
        for es in left.values():
            rng.shuffle(es)
        # distance of every node to one with something left is searched from the node, breadth first
        todo = sum(map(len, left.values()))
        while todo:
            at, path = self.start, []
            while len(path) < maxlen and todo:
                if left[at]:
                    path.append(out[at][left[at].pop()])
                    todo -= 1
                    at = path[-1][1]
                    continue
                way = self.nearest(out, left, at)
                if way is None or (path and len(path) + len(way) >= maxlen):
                    break
                path += way
                at = way[-1][1]
            yield path

    @staticmethod
    def nearest(out, left, at):
        came, q = {at: None}, deque([at])
        while q:
            x = q.popleft()
            if left[x]:
                way = []
                while came[x]:
                    a, e = came[x]
                    way.append(e)
                    x = a
                return way[::-1]
            for e in out[x]:
                if e[1] not in came:
                    came[e[1]] = (x, e)
                    q.append(e[1])
        return None


_lock = threading.Lock()
_graphs = {}


def graph(ck, name):
    with _lock:
        if name not in _graphs:
            m = MODELS[name]
            c = m.get("walk_thorough") if ck.thorough else m["walk"]
            r = common.model(name, cfg(m, c, walk=True), ck.work, workers=1, timeout=3000, heap="6g", deadlock=False)
            g = Graph(l for l in r["out"].splitlines() if l.startswith('"[\\"E'))
            if g.n == 0:
                raise common.ToolError("no transitions of %s" % name)
            ck.add_model("%s %s (replayed)" % (name, c), r, m["what"])
            ck.cov.setdefault("graph_transitions", {})[name] = g.n
            _graphs[name] = g
        return _graphs[name]


def walks(ck, name, rel, tell, budget=None, maxlen=60, skip=(), tag=""):
    """tell(rng, name, path) -> history; budget: transitions to take in the quick tier (all: None)"""
    g = graph(ck, name)
    rng = random.Random("%s/%s%s/%d/%s" % (ck.pid, name, tag, ck.seed, rel))
    ps = list(g.paths(rng, maxlen, skip))
    full = len(ps)
    if budget is not None and not ck.thorough:
        rng.shuffle(ps)
        k, keep = 0, []
        for p in ps:
            if k >= budget:
                break
            k += len(p)
            keep.append(p)
        ps = keep
    ck.cov.setdefault("walks", []).append(dict(model=name, build="release" if rel else "debug", walks=len(ps), of=full,
                                               steps=sum(map(len, ps))))
    return [tell(random.Random("%s/%s/%d" % (ck.pid, tag, i)), "%s%d" % (name, i), p) for i, p in enumerate(ps)]


# ------------------------------------------------------------------ operations of the models as operations of the store

FILL = ((1, 0), (1, 0), (2, 1), (32, 31), (33, 32), (31, 30), (64, 63), (96, 95), (3, 2))


def filled(r, name, caps=None):
    """a store whose first entities stay, so that the ids of the walk lie around a boundary of the real words"""
    if caps:
        return H(r, name, r.choice(caps))
    cap, k = r.choice(FILL)
    h = H(r, name, cap)
    if k:
        h.C(k, r.choice((None, [1])))
    return h


def ids_walk(obs, rel, deco=True, caps=None, **kw):
    """HandlesImpl: creations and destructions; deco: entities get components, tags and places in groups"""
    def tell(r, name, path):
        h = filled(r, name, caps)
        used = {}
        for op, _, _ in path:
            if op[0] == "c":
                t = h.k(r.choice(([1], [2], [1, 2]))) if deco and r.random() < 0.6 else h.c()
                used.setdefault(op[1], []).append(t)
                if deco:
                    if r.random() < 0.4:
                        h.tag(t, r.randint(1, 3), True)
                    if r.random() < 0.4:
                        h.oa(r.randint(1, 2), t)
            elif op[0] == "d":
                h.d(used[op[1]][-1])
            else:
                t = used[op[1]][-1 - op[2]]
                if not rel:
                    h.out("d", t)
            observe(h, obs, (1, 2), r, **kw)
        return h.hist()
    return tell


def stale_walk(obs, rel, **kw):
    """HandlesImpl, with old handles used in every call that ignores them"""
    def tell(r, name, path):
        h = filled(r, name)
        used = {}
        for op, _, _ in path:
            if op[0] == "c":
                t = h.k(r.choice(([1], [2], [1, 2]))) if r.random() < 0.5 else h.c()
                used.setdefault(op[1], []).append(t)
                if r.random() < 0.5:
                    h.tag(t, r.randint(1, 3), True)
                if r.random() < 0.5:
                    h.oa(r.randint(1, 2), t)
            elif op[0] == "d":
                h.d(used[op[1]][-1])
            else:
                t = used[op[1]][-1 - op[2]]
                z = r.choice(("a", "r", "s", "t+", "t-", "oa", "on", "op", "or"))
                if z in "ars":
                    getattr(h, z)(t, r.choice(([1], [2], [1, 2])))
                elif z[0] == "t":
                    h.tag(t, r.randint(1, 3), z == "t+")
                elif z == "oa":
                    h.oa(r.randint(1, 2), t)
                elif z == "or":
                    h.orem(r.randint(1, 2), t)
                elif h.order[1]:
                    h.oplace(z == "on", 1, t, r.choice(h.order[1]))
            observe(h, obs, (1, 2), r, **kw)
        return h.hist()
    return tell


def res_walk(kind, rel, unknown=False):
    """ResourceSlots on a resource store"""
    def tell(r, name, path):
        cap, k = r.choice(FILL)
        lines, used, n = ["n"] * k, {}, k
        live = set(range(1, n + 1))
        for op, _, _ in path:
            if op[0] == "n":
                lines.append("n")
                n += 1
                live.add(n)
                used.setdefault(op[1], []).append(n)
            elif op[0] == "x":
                lines.append("x %d" % used[op[1]][-1])
                live.discard(used[op[1]][-1])
            elif op[0] == "w":
                lines.append("%s %d" % (r.choice("wp"), used[op[1]][-1]))
            elif op[0] == "?" and not rel:
                lines.append("%s %d" % (r.choice("gwpx"), r.choice(used[op[1]])))
            if live:
                lines += ["g %d" % t for t in r.sample(sorted(live), min(len(live), 2))]
            if unknown:
                lines.append("X a %d %d" % (r.randint(0, max(cap, len(live)) + 2), r.choice((1, 1, 2))))
        if op[0] != "end":
            lines += ["g %d" % t for t in sorted(live)]
        t = used[op[1]][-1] if op[0] == "end" and op[1] >= 0 else r.choice(sorted(live)) if live and r.random() < 0.3 else 0
        lines.append("end %d" % t if t else "end")
        return ("HR", kind + name, "%s %d" % (kind, cap), lines)
    return tell


def tag_walk(obs, rel, comps=(), endobs=(), **kw):
    def tell(r, name, path):
        h = filled(r, name)
        names = r.sample((1, 2, 3), 2)
        tok = {}
        for op, _, _ in path:
            if op[0] == "c":
                tok[op[1]] = h.k([r.choice(comps)]) if comps and r.random() < 0.85 else h.c()
            elif op[0] == "d":
                h.d(tok[op[1]])
            elif op[0] != "end":
                h.tag(tok[op[1]], names[op[2] - 1], op[0] == "t+")
            observe(h, obs, comps or (1,), r, **kw)
        observe(h, endobs, comps or (1,), r)
        return h.hist()
    return tell


def order_walk(obs, rel, comps=(), **kw):
    def tell(r, name, path):
        h = filled(r, name)
        g = r.randint(1, 3)
        tok = {}
        for op, _, _ in path:
            o = op[0]
            if o == "c":
                tok[op[1]] = h.k([r.choice(comps)]) if comps and r.random() < 0.8 else h.c()
            elif o == "d":
                h.d(tok[op[1]])
            elif o[:2] == "oa":
                if o == "oa" or not rel:
                    h.oa(g, tok[op[2]])
            elif o[:2] in ("on", "op"):
                if len(o) == 2 or not rel:
                    h.oplace(o[:2] == "on", g, tok[op[2]], tok[op[3]])
            else:
                h.orem(g, tok[op[2]])
            observe(h, obs, comps or (1,), r, **kw)
        return h.hist()
    return tell


def page_walk(obs, rows=2, endobs=(), ordered=False, each=1, **kw):
    """Pages: positions stand for entities"""
    def tell(r, name, path):
        h = H(r, name, r.choice((1, 2, 10)))
        fam = list(FAMILIES[rows if r.random() < 0.7 else r.choice((2, 3, 4))])
        r.shuffle(fam)
        h.out("comps", *sorted(index([c])[0] for c in fam))
        at = []
        for k, (op, _, perm) in enumerate(path):
            o = op[0].rstrip("!")
            new = None
            S = sorted(fam[i - 1] for i in (op[-1] if isinstance(op[-1], list) else ()))
            if o == "c":
                new = h.c()
            elif o == "k":
                if op[0] == "k":
                    new = h.k(S)
                else:
                    h.out("k", h.shape(S))
            elif o == "d":
                h.d(at[op[1] - 1])
            elif o == "a" and op[0] == "a!":
                h.out("a", at[op[1] - 1], h.shape(S))
            else:
                getattr(h, o)(at[op[1] - 1], S)
            at = [at[i - 1] if i else new for i in perm]
            if ordered and new and r.random() < 0.8:
                (h.oplace(True, 1, new, r.choice(h.order[1])) if h.order[1] else h.oa(1, new))
            if k % each == 0:
                observe(h, obs, fam, r, **kw)
        observe(h, endobs, fam, r)
        return h.hist()
    return tell


def arch_walk(r, name, path):
    """ArchSets on archetypes and a builder; the numbers of the types in the order of their ids are not known here"""
    pool = r.sample(range(1, 27), 3)
    lines, regs, x, y = ["bnew"], 0, 0, 0
    for op, _, _ in path:
        ids = [pool[i - 1] for i in op[1]] if len(op) > 1 else []
        if op[0] in "+-":
            if ids and len(set(ids)) == len(ids) and index(ids) and r.random() < 0.5:
                lines.append("%s %d" % ("binc" if op[0] == "+" else "bexc", r.choice(index(ids))))
            else:
                lines.append("%s %s" % ("btin" if op[0] == "+" else "btex", " ".join(map(str, ids))))
        elif op[0] == "bnew":
            lines.append("bnew")
        elif op[0] == "arc":
            lines.append("barc %d" % x)
        else:
            lines.append("build")
            if op[0] == "build":
                regs += 1
                x, y = regs, x
        if x:
            z = r.random()
            if z < 0.25 or op[0] == "build":
                lines.append("show %d" % x)
            if y and (z < 0.5 or op[0] == "build"):
                lines.append("cmp %d %d" % ((x, y) if r.random() < 0.5 else (y, x)))
            if z > 0.3:
                lines.append("ids %d %s" % (x, " ".join(str(r.choice(pool)) for _ in range(r.randint(0, 4)))))
    return ("HA", name, "", lines)


def emitted(ck, name):
    """what the model prints with Emit, each once"""
    with _lock:
        if name not in _graphs:
            m = MODELS[name]
            c = m["walk_thorough" if ck.thorough else "walk"]
            r = common.model(name, cfg(m, c, walk=True), ck.work, workers=1, timeout=3000, heap="6g", deadlock=False)
            lines = dict.fromkeys(l for l in r["out"].splitlines() if l.startswith('"[\\"E'))
            _graphs[name] = [json.loads(json.loads(l))[1:] for l in lines]
            ck.add_model("%s %s (replayed)" % (name, c), r, m["what"])
            if not _graphs[name]:
                raise common.ToolError("nothing printed by " + name)
        return _graphs[name]


def configurations(ck, rel, kinds, budget, per=25, q=None, also=None):
    """configurations of Queries on the real store, several in one history, with query objects used again and again"""
    rng = random.Random("%s/Queries/%d/%s" % (ck.pid, ck.seed, rel))
    cs = [c for c in emitted(ck, "Queries") if c[3] in kinds]
    if not cs:
        raise common.ToolError("no configurations of Queries")
    n = len(cs)
    cs = rng.sample(cs, min(n, budget * (20 if ck.thorough else 1)))
    ck.cov.setdefault("configurations", []).append(dict(build="release" if rel else "debug", of=n, replayed=len(cs)))
    res = []
    for i in range(0, len(cs), per):
        r = random.Random("%s/%d/%d" % (ck.pid, ck.seed, i))
        res.append(configured(r, "Queries%d" % (i // per), cs[i:i + per], q or {}, also))
    return res


def configured(r, name, cs, q, also):
    h = H(r, name, r.choice((1, 2, 10, 33)))
    fam = list(FAMILIES[3 if r.random() < 0.7 else r.choice((2, 4))])
    r.shuffle(fam)
    sets = [(), fam[:1], fam[1:2], fam[:2]]
    h.out("comps", *sorted(index([c])[0] for c in fam))
    for first, cls, dead, kind, Q, lst, filt in cs:
        tok = {}
        f = r.randint(1, 2)
        tagged = set(filt[0]) if filt else set()
        g = r.randint(1, 2)
        for x in range(1, len(cls) + 2):
            if x == first + 1:
                for d in dead:
                    h.d(tok[d])
            if x > len(cls):
                break
            tok[x] = h.k(sets[cls[x - 1]]) if cls[x - 1] else h.c()
            if filt and (x in tagged or x in dead and r.random() < 0.5):
                h.tag(tok[x], f, True)
            if kind == "o" and x in dead and r.random() < 0.5:
                h.oa(g, tok[x])
        if kind == "o":
            ms = [tok[x] for x in lst]
            for k, t in enumerate(ms):
                if k and r.random() < 0.3:
                    h.oplace(True, g, t, ms[k - 1])
                else:
                    h.oa(g, t)
        ids = [fam[c - 1] for c in Q]
        r.shuffle(ids)
        shs = index(ids, q=True)
        for _ in range(2):
            mode = r.choice(q.get("modes", "RWX"))
            style = r.choice(q.get("styles", (0,)))
            w = 1 if mode != "R" and r.random() < q.get("write", 0) else 0
            take = -1
            if style == 2 or style >= 5 or (style == 0 and r.random() < q.get("part", 0.1)):
                take = r.randint(0, 3)
            h.q(kind, mode, r.choice(shs), 1 if filt or r.random() < 0.7 else 0, f if filt else 0, g,
                1 if r.random() < q.get("persist", 0.8) else 0, take, style, w, [tok[x] for x in lst] if kind == "l" else ())
        if also:
            observe(h, also, fam, r)
        for t in r.sample(h.alive, len(h.alive)):
            h.d(t)
    return h.hist()


def histories(ck, module, rel):
    from vlib import props
    f = props.WALKS.get((ck.pid, module)) or props.WALKS.get(ck.pid)
    return f(ck, rel) if f else []


def selftest(work, only=None):
    """every planted mistake of a design is rejected by TLC; returns a list of (model, bug, rejected how)"""
    res = []
    for name, m in MODELS.items():
        if only and name not in only:
            continue
        for b, c in m["bugs"]:
            r = common.tlc(name, cfg(m, c, bug=b), work, workers=4, timeout=900, deadlock=False)
            how = {0: None, 10: "assumption", 11: "deadlock", 12: "safety", 13: "liveness"}.get(r["code"], "evaluation")
            res.append((name, b, how))
    return res
