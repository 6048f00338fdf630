#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current tree. Tier and seed from VERIF_TIER, VERIF_SEED.
check.py --replay <file>: runs the recorded schedule of a violation again."""
import json, os, sys, traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common, props, designs, probes
from vlib.common import Check, Rejected, ToolError, TRACE_CFG

B = {True: "TRUE", False: "FALSE"}


MANY_GROUPS = ("C11", "C12", "C13", "C15", "C19", "C25", "C28")


def store_cfg(pid):
    return TRACE_CFG + "CONSTANTS\n Groups = {%s}\n CheckIter = %s\n CheckCap = %s\n Known = %s\n" % (
        ",".join(str(g) for g in range(1, 41 if pid in MANY_GROUPS else 7)),
        B[pid == "C22"], B[pid == "C21"], designs.strings(probes.known(pid)))


def handles_cfg(pid):
    return TRACE_CFG + "CONSTANTS\n CheckFresh = %s\n CheckBound = %s\n Slack = 1024\n" % (B[pid == "C01"], B[pid == "C20"])


def res_cfg(pid):
    return TRACE_CFG + "CONSTANTS\n CheckValues = %s\n CheckHandles = %s\n CheckMemory = %s\n" % (
        B[pid == "C16"], B[pid == "C17"], B[pid == "C19"])


def known_cfg(pid):
    return TRACE_CFG + "CONSTANTS Known = %s\n" % designs.strings(probes.known(pid))


def parts(ck):
    """(trace module, cfg, history builder) per group of histories"""
    pid = ck.pid
    if pid in props.STORE:
        yield "StoreTrace", store_cfg(pid), props.STORE[pid]
    elif pid in props.HANDLES:
        yield "HandlesTrace", handles_cfg(pid), props.HANDLES[pid]
    elif pid in props.RES:
        yield "ResTrace", res_cfg(pid), props.RES[pid]
    elif pid == "C18":
        yield "ArchTrace", TRACE_CFG, props.arch
    elif pid == "C19":
        yield "StoreTrace", store_cfg(pid), props.c19s
        yield "ResTrace", res_cfg(pid), props.res
    elif pid == "C26":
        yield "BorrowTrace", known_cfg(pid), lambda ck, rel: probes.holds(ck, rel)
    elif pid == "C27":
        yield "DeriveTrace", known_cfg(pid), None
    elif pid == "C29":
        yield "TwinTrace", store_cfg(pid).replace("TraceSpec", "TwinSpec"), props.c29
    elif pid == "C30":
        yield "TwinTrace", store_cfg(pid).replace("TraceSpec", "TwinSpec"), props.c30
    elif pid == "C31":
        yield "StoreTrace", store_cfg(pid), props.c31s
        yield "ResTrace", TRACE_CFG + "CONSTANTS\n CheckValues = TRUE\n CheckHandles = TRUE\n CheckMemory = FALSE\n", props.c31r
    elif pid == "C32":
        yield "StoreTrace", store_cfg(pid), props.c32s
        yield "ResTrace", TRACE_CFG + "CONSTANTS\n CheckValues = TRUE\n CheckHandles = TRUE\n CheckMemory = TRUE\n", props.c32r
        yield "ArchTrace", TRACE_CFG, props.c32a
    elif pid == "C28":
        yield "StoreTrace", store_cfg(pid), props.c28s
        yield "ResTrace", TRACE_CFG + "CONSTANTS\n CheckValues = TRUE\n CheckHandles = FALSE\n CheckMemory = TRUE\n", props.c28r
        yield "ArchTrace", TRACE_CFG, props.c28a


def extra(module, t):
    if module == "ResTrace":
        return '"kind":"%s",' % t["hist"][2].split()[0]
    if module == "ArchTrace":
        return '"singles":%s,' % json.dumps(props.SINGLES)
    return ""


def compiled(ck):
    """verdicts of the compiler on programs and definitions of the specifications"""
    if ck.pid == "C18":
        return probes.macros(ck)
    if ck.pid == "C26":
        ps = designs.emitted(ck, "Borrows")
        one = [p for p in ps if len(p[0]) == 1]
        more = [p for p in ps if len(p[0]) > 1]
        rng = props.random.Random("%s/%d" % (ck.pid, ck.seed))
        ts = probes.borrows(ck, one + rng.sample(more, min(len(more), 8000 if ck.thorough else 600)))
    else:
        ts = probes.derives(ck, [p[0] for p in designs.emitted(ck, "Derive")])
    for t in ts:
        t["extra"] = ""
    return ts


def pid_adds(ck):
    return ck.pid not in ("C28", "C29", "C30", "C31", "C32")      # whose builders add the walks themselves


def pairs(ck, module, traces):
    if ck.pid == "C29":
        return props.beside_alone(traces)
    return props.paired(traces) if ck.pid == "C30" else traces


def run(ck):
    if ck.pid == "C27":
        (module, cfg, _), = parts(ck)
        designs.run(ck)
        return ck.check_traces(module, cfg, compiled(ck), module)
    with ThreadPoolExecutor(4) as ex:
        models = ex.submit(designs.run, ck)
        programs = ex.submit(compiled, ck) if ck.pid in ("C18", "C26") else None
        bins = dict(zip((False, True), ex.map(common.build, ("debug", "release"))))
        for module, cfg, make in parts(ck):
            jobs = {}
            for rel in (False, True):
                hs = make(ck, rel) + (designs.histories(ck, module, rel) if pid_adds(ck) else [])
                jobs[rel] = ex.submit(common.run_harness, bins[rel], hs, ck.work, module + ("rel" if rel else "dbg"), 4)
            traces = programs.result() if programs else []
            for rel in (False, True):
                for t in jobs[rel].result():
                    t["extra"] = extra(module, t)
                    t["build"] = "release" if rel else "debug"
                    traces.append(t)
            ck.check_traces(module, cfg, pairs(ck, module, traces), module)
        models.result()


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    ck = Check(sys.argv[1])
    try:
        try:
            run(ck)
            if not ck.cov["events_validated"]:
                raise ToolError("nothing validated")
        except Rejected as r:
            ck.violation(r.info)
            ck.evidence(1)
            return 1
        kf = probes.known(ck.pid)
        ck.cov["known_findings"] = sorted(ck.known)
        ck.evidence(0)
        for k in sorted(ck.known):
            print("KNOWN-FINDING: property=%s %s: %s" % (ck.pid, k, kf[k]))
        print("%s held: %d histories, %d events, %d model states, %.0f s" % (
            ck.pid, ck.cov["traces_validated_against_impl"], ck.cov["events_validated"],
            sum(m["distinct_states"] for m in ck.cov["models"]), common.time.time() - ck.t0))
        return 0
    except ToolError as e:
        print("check error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ck.close()


def replay(path):
    d = json.load(open(path))
    ck = Check(d["property"])
    module = d["module"]
    try:
        if d["build"] == "check":
            ts = probes.again(ck, d)
        else:
            b = common.build(d["build"] or "debug")
            h = (d["kind"], d["history"].partition("#")[0], d["params"], d["schedule"])
            ts = common.run_harness(b, [h] + (props.alone(h) if ck.pid == "C29" else []), ck.work, "replay")
        for t in ts:
            t["build"] = d["build"]
            t.setdefault("extra", extra(module, t))
        cfg = [c for m, c, _ in parts(ck) if m == module][0]
        ck.check_traces(module, cfg, pairs(ck, module, ts), module)
        print("the history is accepted")
        return 0
    except Rejected as r:
        ck.violation(r.info, "replayed")
        return 1
    finally:
        ck.close()


if __name__ == "__main__":
    sys.exit(main())
