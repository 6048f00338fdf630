"""Programs and definitions of the specifications Borrows and Derive, given to the compiler; its verdicts become events."""
import json, os, random, re, shutil, subprocess
from vlib import common
from vlib.common import REPO, HARNESS, ToolError

PRE = """#![allow(warnings)]
use division_ecs::*;
use division_ecs::query::{component, entity_component, ordered_component};
#[derive(Clone, Copy, Component)] pub struct A(u32);
#[derive(Clone, Copy, Component)] pub struct B { x: u8, y: [u16; 3] }
#[derive(Clone, Copy, Component)] pub struct C(u64, u64);
#[derive(Tag)] pub struct T;
#[derive(Tag)] pub struct O;
fn any<X>() -> X { loop {} }
fn held<X>(_: X) {}
fn dup<X: Clone>(x: &X) -> X { x.clone() }
"""
READS = ("A", "(A, B)", "(B, A)", "(A, B, C)", "(C, A)")
WRITES = ("A", "(A, B)", "(B, A)", "(A, B, C)", "(C, A)")
BOTHS = ("B, A", "(C, B), A", "C, (A, B)", "B, (A, C)")


def giver(g, i, rng, bind, query=None):
    """statements that make the result `bind` of the giver g"""
    k, m, f = g["k"], g["m"], g["f"]
    if k == "refs":
        t = rng.choice(READS)
        return "let %s = s.get_components_refs%s::<%s>(e);" % (bind, "_mut" if m == "W" else "", t)
    if k == "archetype":
        return "let %s = s.get_entity_archetype(e);" % bind
    if k == "resource":
        return "let %s = &%sr[e];" % (bind, "mut " if m == "W" else "")
    mod = dict(component="component", list="entity_component", ordered="ordered_component")[k]
    fn = dict(R="readonly", W="write", X="read_write")[m]
    ts = rng.choice(dict(R=READS, W=WRITES, X=BOTHS)[m])
    call = dict(component="component_query_iter(", list="entity_component_query_iter(&h%d, " % i,
                ordered="ordered_query_iter(")[k]
    q = ""
    if query is None:
        q = "let mut h%d: Vec<Entity> = any(); let mut q%d = %s::%s::<%s%s>(); " % (
            i, i, mod, fn, "O, " if k == "ordered" else "", ts)
        query = i
    post = dict(iter="", ents=".with_entities()", tagged=".with_entities().filter_tag::<T>()",
                item=rng.choice((".next()", ".with_entities().next()", ".nth(1)", ".last()")))[f]
    if f == "item" and k == "component" and rng.random() < 0.3:
        post = ".with_entities().filter_tag::<T>().next()"
    return "%slet mut %s = s.%s&mut q%d)%s;" % (q, bind, call, query, post)


def change(n, i, L, rng):
    c = dict(create="let x = s.create_entity();",
             createwith="let x = s.create_entity_with_archetype(&Archetype::with_components::<(A, B)>());",
             destroy="let x = s.destroy_entity(e);",
             add="let x = s.add_components(e, %s);" % rng.choice(("any::<B>()", "any::<(A, C)>()")),
             remove="let x = s.remove_components::<%s>(e);" % rng.choice(("A", "(A, B)", "C")),
             tag="let x = s.add_tag::<T>(e);", untag="let x = s.remove_tag::<T>(e);",
             order="let x = s.%s;" % rng.choice(("add_entity_order_by::<O>(e)", "add_entity_next_to_order_by::<O>(e, e)",
                                                 "add_entity_previous_to_order_by::<O>(e, e)")),
             unorder="let x = s.remove_entity_order_by::<O>(e);",
             drop="drop(s); let x = ();", move="let x = s;",
             rcreate="let x = r.create(1);", rrelease="let x = r.release(e);", rdrop="drop(r); let x = ();",
             clearlist="let x = h%d.clear();" % i, droplist="drop(h%d); let x = ();" % i,
             dropquery="drop(q%d); let x = ();" % i, clone="let x = dup(&g%d);" % i)
    if n == "requery":
        return giver(L[i - 1], i, rng, "x", i)
    return c[n]


def program(name, L, c, rng, control):
    body = ["let mut s: Store = any(); let mut r: ResourceStore<u32> = any(); let e: Entity = any();"]
    for i, g in enumerate(L, 1):
        body.append(giver(g, i, rng, "g%d" % i))
    body.append(giver(c["g"], 0, rng, "x") if c["t"] == "give" else change(c["n"], c["i"], L, rng))
    if not control:
        body += ["held(g%d);" % i for i in range(1, len(L) + 1)]
    body.append("held(x);")
    return "fn %s() { %s }" % (name, " ".join(body))


# name -> (program that must not compile, the same made right or "")
FORBIDDEN = dict(
    ptrs_read=("fn f(p: *const A) { use division_ecs::query::access::ComponentQueryAccess; held::<&A>(ReadonlyAccess::<A>::ptrs_to_refs(p)) }",
               "fn f(p: *const A) { use division_ecs::query::access::ComponentQueryAccess; held::<&A>(unsafe { ReadonlyAccess::<A>::ptrs_to_refs(p) }) }"),
    ptrs_write=("fn f(p: *mut A) { use division_ecs::query::access::ComponentQueryAccess; held::<&mut A>(WriteAccess::<A>::ptrs_to_refs(p)) }",
                "fn f(p: *mut A) { use division_ecs::query::access::ComponentQueryAccess; held::<&mut A>(unsafe { WriteAccess::<A>::ptrs_to_refs(p) }) }"),
    ptrs_both=("fn f(p: (*const B, *mut A)) { use division_ecs::query::access::ComponentQueryAccess; held::<(&B, &mut A)>(ReadWriteAccess::<B, A>::ptrs_to_refs(p)) }",
               ""),
    tuple_ptrs=("fn f(p: (*const A, *const B)) { held::<(&A, &B)>(<(A, B) as ComponentTuple>::ptrs_to_refs(p)) }", ""),
    tuple_ptrs_mut=("fn f(p: (*mut A, *mut B)) { held::<(&mut A, &mut B)>(<(A, B) as ComponentTuple>::ptrs_to_refs_mut(p)) }", ""),
    view_new=("use division_ecs::query::component_page_iter_view::ComponentPageIterView as V; "
              "fn f() { held(V::<WriteAccess<A>>::new(any(), any())) }", ""),
    pages_iter=("use division_ecs::query::component_page_iter::ComponentPageIter as I; "
                "fn f(p: *mut A) { use division_ecs::query::component_page_iter_view::ComponentPageIterView as V; "
                "let v = V::<WriteAccess<A>> { ptrs: p, entity_ids: std::ptr::null(), entity_count: 1 }; held(I::new(v).next()) }", ""),
    entity_id=("use division_ecs::query::component_page_iter::ComponentPageIter as I; "
               "fn f(i: I<WriteAccess<A>>) { held(i.current_entity_id()) }", ""),
    share_store=("fn sync<X: Sync>() {} fn f() { sync::<Store>() }", "fn sync<X>() {} fn f() { sync::<Store>() }"),
    share_resources=("fn sync<X: Sync>() {} fn f() { sync::<ResourceStore<std::cell::Cell<u32>>>() }",
                     "fn sync<X>() {} fn f() { sync::<ResourceStore<std::cell::Cell<u32>>>() }"),
    component_of_local=("#[derive(Clone, Copy)] struct H<'a>(&'a u32); impl<'a> Component for H<'a> {} "
                        "fn f() { let mut s: Store = any(); let e: Entity = any(); { let n = 1; s.add_components(e, H(&n)); } held(s); }",
                        "#[derive(Clone, Copy)] struct H<'a>(&'a u32); impl<'a> Component for H<'a> {} "
                        "fn f() { let mut s: Store = any(); let e: Entity = any(); { s.add_components(e, H(&1)); } held(s); }"),
    resource_of_local=("fn f() { let mut r: ResourceStore<&u32> = any(); { let n = 1; r.create(&n); } held(r); }",
                       "fn f() { let n = 1; let mut r: ResourceStore<&u32> = any(); { r.create(&n); } held(r); }"),
    resource_into_local=("fn f() { let mut r: ResourceStore<&'static u32> = any(); let e: Entity = any(); let n = 1; r[e] = &n; }",
                         "fn f() { let mut r: ResourceStore<&'static u32> = any(); let e: Entity = any(); r[e] = &1; }"),
    store_local=("fn f<'a>() -> Option<&'a mut A> { let mut s: Store = any(); s.get_components_refs_mut::<A>(any()) }",
                 "fn f() { let mut s: Store = any(); s.get_components_refs_mut::<A>(any()); }"),
    item_out_of_scope=("fn f() { let x; { let s: Store = any(); let mut q = component::write::<A>(); x = s.component_query_iter(&mut q).next(); } held(x); }",
                       "fn f() { let x; { let s: Store = any(); let mut q = component::write::<A>(); x = s.component_query_iter(&mut q).next(); held(x); } }"),
    resource_out_of_scope=("fn f() { let x; { let r: ResourceStore<u32> = any(); x = &r[any()]; } held(x); }",
                           "fn f() { let x; { let r: ResourceStore<u32> = any(); x = &r[any()]; held(x); } }"),
    list_local=("fn f() { let s: Store = any(); let mut q = entity_component::write::<A>(); let x; { let h: Vec<Entity> = any(); x = s.entity_component_query_iter(&h, &mut q); } held(x); }",
                "fn f() { let s: Store = any(); let mut q = entity_component::write::<A>(); let x; { let h: Vec<Entity> = any(); x = s.entity_component_query_iter(&h, &mut q); held(x); } }"),
)


# ------------------------------------------------------------------ lists written with the public macros

MNAMES = ["A", "B", "C", "D"]
MMAIN = """#![allow(warnings)]
use division_ecs::{Component, component_types, type_ids};
use std::any::TypeId;
type ComponentType_ = division_ecs::ComponentType;
#[derive(Clone, Copy, Component)] pub struct A(u32);
#[derive(Clone, Copy, Component)] pub struct B { x: u8, y: [u16; 3] }
#[derive(Clone, Copy, Component)] pub struct C(u64, u64);
#[derive(Clone, Copy)] pub struct D;
fn number(t: TypeId) -> usize {
    [TypeId::of::<A>(), TypeId::of::<B>(), TypeId::of::<C>(), TypeId::of::<D>()].iter().position(|x| *x == t).map_or(0, |i| i + 1)
}
fn ok(c: &ComponentType_) -> usize {
    let n = number(c.id());
    let want = [ComponentType_::of::<A>(), ComponentType_::of::<B>(), ComponentType_::of::<C>(), ComponentType_::of::<D>()];
    if n > 0 && c.size() == want[n - 1].size() && c.align() == want[n - 1].align() && c.name() == want[n - 1].name() { n } else { 0 }
}
fn show(i: usize, v: &[usize]) { println!("{i} {v:?}"); }
fn main() {
"""


def macros(ck, lists=None):
    """what lists of the macros component_types! and type_ids! hold, in a crate of its own"""
    if lists is None:
        ls = [[]]
        for _ in range(3):
            ls += [x + [k] for x in ls for k in (1, 2, 3, 4) if len(x) == max(map(len, ls))]
        ls = [x for x in ls if x] + [[4, 3, 2, 1], [1, 2, 3, 4, 1], list((1, 2, 3, 4) * 3), list((1, 2, 3, 4) * 8)]
        lists = [dict(m=m, s=x) for m in ("component_types", "type_ids") for x in ls]
    comp = Compiler(ck.work)
    text = lambda x: "%s!(%s)" % (x["m"], ", ".join(MNAMES[k - 1] for k in x["s"]))
    pre = MMAIN[:MMAIN.index("fn number")]
    acc, _ = comp.accepted({"l%d" % i: "fn f() { let x = %s; }" % text(x) for i, x in enumerate(lists)}, pre)
    body = ["show(%d, &%s.iter().map(|c| %s).collect::<Vec<_>>());" % (i, text(x), "number(*c)" if x["m"] == "type_ids" else "ok(c)")
            for i, x in enumerate(lists) if "l%d" % i in acc]
    got = comp.output(MMAIN + "\n".join(body) + "\n}\n") if body else ""
    vals = {int(l.split(" ", 1)[0]): json.loads(l.split(" ", 1)[1]) for l in got.splitlines()}
    ev = [(dict(o="list", m=x["m"], s=x["s"], r="ok" if i in vals else "refused", v=vals.get(i, [])), x)
          for i, x in enumerate(lists)]
    return [dict(t, extra='"singles":[],') for t in traces("lists", "LISTS", ev)]


def inside(span):
    return span["file_name"] == "src/lib.rs"


class Compiler:
    """a crate with /repo's as its dependency; check(files) tells what the compiler has to say about every line"""

    def __init__(self, work):
        self.dir = os.path.join(work, "probe")
        os.makedirs(os.path.join(self.dir, "src"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "probe"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n'
                    'division_ecs = { path = "%s" }\n[workspace]\n' % REPO)
        self.n = 0

    def check(self, units, pre=PRE):
        """units: {name: text of an item without newline}; returns {name: message} of those with errors"""
        self.n += 1
        names = list(units)
        text = pre + "\n".join("mod m_%s { use super::*; %s }" % (n, units[n]) for n in names) + "\n"
        first = pre.count("\n") + 1
        with open(os.path.join(self.dir, "src", "lib.rs"), "w") as f:
            f.write(text)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings",
                   CARGO_TARGET_DIR=os.environ.get("VERIF_TARGET", os.path.join(HARNESS, "target")) + "-probe")
        p = subprocess.run(["cargo", "check", "--offline", "-q", "--message-format=json"], cwd=self.dir, env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, errors="replace")
        bad, n = {}, 0
        for line in p.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            if m["target"]["name"] != "probe":
                raise ToolError("the library does not compile:\n" + str(m["message"]["rendered"])[:2000])
            n += 1
            for s in m["message"]["spans"]:
                while not inside(s) and s.get("expansion"):      # an error inside a macro belongs to its call
                    s = dict(s["expansion"]["span"], is_primary=s["is_primary"])
                if s["is_primary"] and inside(s):
                    k = s["line_start"] - first
                    if not 0 <= k < len(names):
                        raise ToolError("probe: " + m["message"]["rendered"][:2000])
                    bad.setdefault(names[k], m["message"]["message"])
        if (p.returncode != 0) != bool(bad):
            raise ToolError("probe: cargo check ended with %d and %d errors\n%s" % (p.returncode, n, p.stderr[-2000:]))
        return bad

    def output(self, text):
        """what the program prints; nothing of a program that does not end by itself is believed"""
        os.remove(os.path.join(self.dir, "src", "lib.rs"))
        with open(os.path.join(self.dir, "src", "main.rs"), "w") as f:
            f.write(text)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings",
                   CARGO_TARGET_DIR=os.environ.get("VERIF_TARGET", os.path.join(HARNESS, "target")) + "-probe")
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=self.dir, env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, errors="replace")
        if p.returncode:
            raise ToolError("probe: " + p.stdout[-2000:])
        p = subprocess.run([os.path.join(env["CARGO_TARGET_DIR"], "debug", "probe")], text=True, timeout=100,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return p.stdout

    def accepted(self, units, pre=PRE):
        """names of the units that compile; errors of one phase of the compiler hide those of later ones, so until none is left"""
        left, msgs = dict(units), {}
        while left:
            bad = self.check(left, pre)
            if not bad:
                break
            msgs.update(bad)
            for n in bad:
                del left[n]
        return left, msgs


def events(units, ok):
    """units: [(name, event without the verdict, text)]"""
    return [(dict(e, acc=1 if n in ok else 0), dict(e=e, text=t)) for n, e, t in units]


def traces(name, kind, pairs, per=80):
    """histories of verdicts, as run_harness makes them of executions"""
    res = []
    for i in range(0, len(pairs), per):
        part = pairs[i:i + per]
        res.append(dict(name="%s%d" % (name, i // per), ev=[json.dumps(e, separators=(",", ":")) for e, _ in part],
                        hist=(kind, name, "", [json.dumps(x) for _, x in part]), build="check"))
    return res


def again(ck, d):
    """the verdicts on the programs of a recorded history"""
    xs = [json.loads(x) for x in d["schedule"]]
    if d["kind"] == "LISTS":
        return macros(ck, xs)
    units = [("u%d" % i, x["e"], x["text"]) for i, x in enumerate(xs)]
    ok, _ = Compiler(ck.work).accepted({n: t for n, _, t in units}, PRE if d["kind"] == "PROGRAMS" else DPRE)
    return traces(d["history"], d["kind"], events(units, ok), len(units))


def borrows(ck, programs):
    """the compiler's verdicts on programs [(L, c, verdict of the model of the signatures)]"""
    rng = random.Random("%s/%d" % (ck.pid, ck.seed))
    comp = Compiler(ck.work)
    units, ctl = [], {}
    for i, (L, c, _) in enumerate(programs):
        seed = rng.random()
        units.append(("p%d" % i, dict(o="prog", L=L, c=c), program("f", L, c, random.Random(seed), False)))
        if c.get("n") != "clone" and len(L) == 1:
            ctl["c%d" % i] = program("f", L, c, random.Random(seed), True)
    ctl.update(("r_" + n, x[1]) for n, x in FORBIDDEN.items() if x[1])
    bad = comp.check(ctl)
    if bad:
        n = sorted(bad)[0]
        raise ToolError("%d control programs do not compile: %s\n%s" % (len(bad), bad[n], ctl[n]))
    ok, _ = comp.accepted({n: t for n, _, t in units})
    ev = events(units, ok)
    ck.cov["programs"] = dict(
        compiled=len(ev), accepted=len(ok), controls=len(ctl), forbidden=len(FORBIDDEN),
        as_the_model_of_the_signatures=sum((e["acc"] == 1) == a for (e, _), (_, _, a) in zip(ev, programs)))
    units = [("x" + n, dict(o="forbidden", n=n), x[0]) for n, x in FORBIDDEN.items()]
    ok, _ = comp.accepted({n: t for n, _, t in units})
    return traces("programs", "PROGRAMS", ev + events(units, ok))


# ------------------------------------------------------------------ definitions

TYPES = dict(u32="u32", unit="()", arr="[u16; 3]", own="super::P", ptr="&'static str")
DPRE = "#![allow(warnings)]\nuse division_ecs::*;\n#[derive(Clone, Copy)] pub struct P;\nfn comp<X: Component>() {}\nfn tag<X: Tag>() {}\n"


def definition(d, control, rng):
    fs = [TYPES[f] for f in d["fields"]]
    gen, use, where = {"": ("", "", ""), "type": ("<G: Copy + 'static>", "<u8>", ""), "const": ("<const N: usize>", "<2>", ""),
                       "lifetime": ("<'g>", "<'static>", "")}[d["gen"]]
    if d["gen"] == "type":
        fs[0] = "G"
    if d["gen"] == "lifetime":
        fs[0] = "&'g u32"
    if d["gen"] == "const" and fs:
        fs[0] = "[u8; N]"
    vis = "pub " if d["attr"] == "pub" else ""
    names = rng.sample(["a", "b_1", "r#type", "value", "x"], len(fs))
    if d["kind"] == "enum":
        style = {"unit": "V%d", "tuple": "V%d(%s)", "named": "V%d { f: %s }"}[d["style"]]
        body = " { %s }" % ", ".join(style % ((i, t) if "%s" in style else i) for i, t in enumerate(fs))
    elif d["style"] == "unit":
        body = ";"
    elif d["style"] == "tuple":
        body = "(%s)%s;" % (", ".join(vis + t for t in fs), " where u8: Copy" if d["attr"] == "where" else "")
    else:
        body = " { %s }" % ", ".join("%s%s: %s" % (vis, n, t) for n, t in zip(names, fs))
    if d["attr"] == "where" and d["style"] != "tuple" or d["attr"] == "where" and d["kind"] == "enum":
        body = " where u8: Copy" + body
    attr = {"repr": "#[repr(C)] ", "doc": "/** A definition. */ "}.get(d["attr"], "")
    mac = "" if control else d["macro"]
    ds = ["Clone", "Copy"]
    if mac:
        ds.insert(rng.randint(0, 2), mac)
    der = "#[derive(%s)] " % ", ".join(ds) if rng.random() < 0.7 else "".join("#[derive(%s)] " % x for x in ds)
    name = rng.choice(("D", "Some_Name2", "r#Match")) if d["gen"] == "" else "D"
    need = "" if control else "fn f() { super::%s::<%s%s>() }" % (dict(Component="comp", Tag="tag")[mac], name, use)
    return "%s%spub %s %s%s%s %s" % (attr, der, d["kind"], name, gen, body, need)


def derives(ck, defs):
    rng = random.Random("%s/%d" % (ck.pid, ck.seed))
    comp = Compiler(ck.work)
    units, ctl = [], {}
    for i, d in enumerate(defs):
        seed = rng.random()
        units.append(("d%d" % i, dict(o="derive", d=d), definition(d, False, random.Random(seed))))
        ctl["d%d" % i] = definition(d, True, random.Random(seed))
    bad = comp.check(ctl, DPRE)
    if bad:
        k = sorted(bad)[0]
        raise ToolError("%d definitions do not compile by themselves: %s %s" % (len(bad), bad[k], ctl[k]))
    ok, _ = comp.accepted({n: t for n, _, t in units}, DPRE)
    ck.cov["definitions"] = dict(compiled=len(units), accepted=len(ok), compilations=comp.n)
    return traces("definitions", "DEFINITIONS", events(units, ok))


def known(pid):
    """cases of the findings listed for a property -> what fails"""
    res = {}
    for line in open(os.path.join(common.ROOT, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            res[m.group(2)] = m.group(3)
    return res


# ------------------------------------------------------------------ running programs that hold references

ONCE = ["R:A", "R:AB", "W:A", "W:B", "W:D", "W:BA", "W:CDA", "X:A:B", "X:BD:CA"]
TWICE = ["W:AA", "W:ABA", "X:A:A", "X:BA:BC"]


def holds(ck, rel):
    res = []
    for k in range(120 if ck.thorough else 16):
        r = random.Random("%s/%d/%s/%d" % (ck.pid, ck.seed, rel, k))
        big = k % 4 == 3
        lines, n = [], 0
        for step in range(r.randint(20, 60)):
            x = r.random()
            if n < 3 or x < 0.25:
                m = r.choice((1, 1, 2, 5, 40) + ((1500,) if big else ()))
                m = min(m, 3000 - n)
                lines.append("mk %d %d" % (m, r.choice((0, 1, 3, 3, 7, 15, 15, 11, 2, 9))))
                n += m
            elif x < 0.35:
                lines.append("del %d" % r.randrange(n))
                n -= 1
            elif x < 0.5:
                lines.append("%s %d %d" % (r.choice(("add", "add", "rem")), r.choice((1, 2, 4, 8)), r.randrange(n)))
            elif x < 0.6:
                lines.append("tag %d %d" % (r.random() < 0.8, r.randrange(n)))
            elif x < 0.75:
                lines.append("ord %d %d" % (r.random() < 0.8, r.randrange(n)))
            else:
                kind = r.choice(("component", "list", "ordered", "refs"))
                acc = r.choice(TWICE) if r.random() < 0.1 else r.choice(ONCE)
                if kind == "refs":
                    acc = r.choice(("R:A", "W:A", "W:BA", "W:CDA", "W:AA", "W:ABA"))
                form = r.choice(("iter", "ents") + (("tagged",) if kind == "component" else ()))
                k2 = r.randint(1, min(n, 30))
                lst = [r.randrange(n) for _ in range(k2)] if r.random() < 0.2 else r.sample(range(n), k2)
                if kind == "list" and n > 100 and r.random() < 0.3:
                    lst = r.sample(range(n), n)
                lines.append("hold %s %s %s %s" % (acc, kind, form, " ".join(map(str, lst)) if kind in ("list", "refs") else ""))
        for kind in ("component", "list", "ordered"):
            for acc in r.sample(ONCE, 3):
                lines.append("hold %s %s ents %s" % (acc, kind, " ".join(map(str, r.sample(range(n), min(n, 300)))) if kind == "list" else ""))
        res.append(("HB", "holds%d" % k, r.choice((1, 2, 10, 33)), lines))
    return res
