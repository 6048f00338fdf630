"""Table of the component tuples the harness is compiled with (index = position).
Run as a script to rewrite harness/src/shapes.rs."""
import itertools, os, random

NAME = {1: "C1", 2: "C2", 3: "C3", 4: "C4", 5: "C5"}
NAME.update({i: "W%d" % i for i in range(6, 18)})
NAME.update({i: "X%d" % i for i in range(18, 27)})
NAME.update({i: "P%d" % i for i in range(27, 36)})
NAME.update({i: "L%d" % i for i in range(36, 46)})
NAME.update({i: "S%d" % i for i in range(46, 50)})
MANY = list(range(50, 114))      # many types in one set
NAME.update({i: "M%d" % i for i in MANY})
SIZE = {1: 4, 2: 8, 3: 64, 4: 1500, 5: 3000, 6: 4, 7: 6, 8: 8, 9: 12, 10: 16, 11: 5, 12: 4, 13: 24,
        14: 32, 15: 10, 16: 40, 17: 7, 18: 16384, 19: 16388, 20: 9000, 21: 128, 22: 4096, 23: 8192,
        24: 700, 25: 5461, 26: 48,
        27: 8000, 28: 8000, 29: 8000, 30: 5300, 31: 5300, 32: 5300, 33: 4000, 34: 4000, 35: 4000,
        36: 1092, 37: 1092, 38: 1092, 39: 1088, 40: 1088, 41: 1092, 42: 5440, 43: 5440, 44: 512, 45: 1024,
        46: 1, 47: 2, 48: 3, 49: 2}
ALIGN = {1: 4, 2: 8, 3: 64, 4: 1, 5: 4, 6: 1, 7: 2, 8: 8, 9: 4, 10: 16, 11: 1, 12: 4, 13: 8, 14: 32,
         15: 2, 16: 4, 17: 1, 18: 1, 19: 4, 20: 4, 21: 128, 22: 4096, 23: 8192, 24: 4, 25: 1, 26: 16,
         27: 1, 28: 8, 29: 4, 30: 4, 31: 1, 32: 2, 33: 8, 34: 4, 35: 1,
         36: 1, 37: 2, 38: 4, 39: 64, 40: 64, 41: 1, 42: 1, 43: 1, 44: 512, 45: 1024,
         46: 1, 47: 1, 48: 1, 49: 2}
SIZE.update({i: (4, 8, 4, 2, 12, 4, 1, 16)[i % 8] for i in MANY})
ALIGN.update({i: (4, 8, 1, 2, 4, 2, 1, 16)[i % 8] for i in MANY})
# size of the byte arrays after padding to the alignment is the same for all of them
assert all(SIZE[i] % ALIGN[i] == 0 for i in SIZE if i not in ()), [i for i in SIZE if SIZE[i] % ALIGN[i]]

SHAPES = []      # dict(ids, r, w, q)


def add(ids, r=None, w=None, q=True):
    SHAPES.append(dict(ids=list(ids), r=list(r) if r else None, w=list(w) if w else None, q=q))


_rng = random.Random(7)
for k in range(1, 6):
    for sub in itertools.combinations(range(1, 6), k):
        p = list(sub)
        _rng.shuffle(p)
        if k == 1:
            add(p)
        else:
            s = list(p)
            _rng.shuffle(s)
            cut = _rng.randint(1, k - 1)
            add(p, s[:cut], s[cut:])
N_SMALL = len(SHAPES)                       # 31
# second order for every subset with at least two types (no queries)
for k in range(2, 6):
    for sub in itertools.combinations(range(1, 6), k):
        first = next(s["ids"] for s in SHAPES if sorted(s["ids"]) == list(sub))
        p = list(sub)
        while p == first:
            _rng.shuffle(p)
        add(p, q=False)
N_PERM = len(SHAPES)
# arity 1..12 over the small "wide" components
WIDE0 = len(SHAPES)
_w = list(range(6, 18))
for k in range(1, 13):
    p = _w[:]
    _rng.shuffle(p)
    p = p[:k]
    if k == 1:
        add(p)
    else:
        s = list(p)
        _rng.shuffle(s)
        cut = k // 2
        add(p, s[:cut], s[cut:])
for k in range(2, 13):
    p = _w[:]
    _rng.shuffle(p)
    add(p[:k], q=False)
for i in _w:                                 # each wide component alone
    if not any(s["ids"] == [i] for s in SHAPES):
        add([i], q=False)
WIDE1 = len(SHAPES)
# extreme layouts
X0 = len(SHAPES)
for ids in ([18], [19], [20], [20, 1], [1, 20], [21], [21, 1], [22], [22, 4], [23], [23, 1], [23, 23],
            [24], [24, 1], [24, 21, 6], [25], [25, 26, 1], [26], [26, 11], [26, 11, 14], [6, 23], [18, 6],
            [21, 26, 24, 14], [17, 21], [4, 21], [11, 26, 17, 9], [2, 11], [10, 17]):
    if len(set(ids)) == len(ids):
        add(ids, q=False)
X1 = len(SHAPES)
# the families of the page model
FAMILIES = {2: (27, 28, 29), 3: (30, 31, 32), 4: (33, 34, 35)}     # rows of a single type in a page
for fam in FAMILIES.values():
    for k in (1, 2, 3):
        for sub in itertools.combinations(fam, k):
            add(sub, sub[:1] if k > 1 else None, sub[1:] if k > 1 else None)

# components between which gaps would be needed if they lay in the order of their ids
L0 = len(SHAPES)
for ids in [[i] for i in range(36, 46)] + [[36, 39, 37], [38, 40, 41], [42, 22, 43], [36, 37, 38, 39, 40, 41]]:
    add(ids, q=False)
# components of less than four bytes
S0 = len(SHAPES)
for ids in ([46], [47], [48], [49], [46, 47], [48, 46], [49, 46], [48, 49], [47, 48, 46], [46, 49, 48], [46, 47, 48, 49], [46, 1],
            [2, 46], [47, 3], [1, 49], [48, 1, 46]):
    add(ids, ids[:1] if len(ids) > 1 else None, ids[1:] if len(ids) > 1 else None)
S1 = len(SHAPES)
# many types in one set
M0 = len(SHAPES)
for i in MANY:
    add([i], q=False)
_w = MANY + [46, 48, 1, 3, 8, 13]
for k in (2, 3, 5, 8, 12, 12, 12):
    _rng.shuffle(_w)
    add(_w[:k], _w[:k // 2], _w[k // 2:k])
M1 = len(SHAPES)
CROWD = [1, 2, 3] + list(range(6, 18)) + [21, 26, 46, 47, 48, 49] + MANY     # 85 small types
LONE = {x["ids"][0]: i for i, x in enumerate(SHAPES) if len(x["ids"]) == 1}    # every type alone


def index(ids, q=None):
    """indices of the shapes with this set of types"""
    s = sorted(ids)
    return [i for i, x in enumerate(SHAPES) if sorted(x["ids"]) == s and (q is None or x["q"] == q)]


def mustfit(ids):
    """as in spec/Rows.tla"""
    return all(SIZE[i] <= 16384 // len(set(ids)) - 8 for i in ids)


def layout(ids):
    """capacity and end offset as the library computes them (generator guidance only, not an oracle)"""
    n = len(ids)
    row = 16384 // n - max(ALIGN[i] for i in ids) % 8
    return min(row // SIZE[i] for i in ids)


def tup(ids):
    return "(" + ", ".join(NAME[i] for i in ids) + ")"


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    out = ["// generated by vlib/shapes.py", "use crate::comps::*;", "use crate::store_run::*;", "",
           "pub fn shapes() -> Vec<ShapeOps> {", "    let mut v: Vec<ShapeOps> = Vec::new();"]
    for s in SHAPES:
        if not s["q"]:
            out.append("    v.push(ops::<%s>());" % tup(s["ids"]))
        elif s["r"] is None:
            out.append("    v.push(with_queries::<%s>(ops::<%s>()));" % (tup(s["ids"]), tup(s["ids"])))
        else:
            out.append("    v.push(with_rw::<%s, %s>(with_queries::<%s>(ops::<%s>())));"
                       % (tup(s["r"]), tup(s["w"]), tup(s["ids"]), tup(s["ids"])))
    out += ["    v", "}", ""]
    with open(os.path.join(here, "..", "harness", "src", "shapes.rs"), "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
    print(len(SHAPES), N_SMALL, N_PERM, WIDE0, WIDE1, X0, X1)
