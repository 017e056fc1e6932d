#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough]; see vlib.py for the conventions"""
from vlib import *


def finish(futs):
    for f in futs:
        f.result()


def c01(run):
    histories(run, build("set"), "GenSet", "history", "TraceSet")


def c02(run):
    exe = build("set")
    run.drive(exe, "algebra")
    run.judge("TraceAlgebra", "algebra", env={"WHAT": "algebra"}, min_lines=1000)


def c03(run):
    exe = build("set")
    run.drive(exe, "relations")
    run.judge("TraceAlgebra", "relations", env={"WHAT": "relations"}, min_lines=1000)


def c04(run):
    exe = build("bulk")
    run.drive(exe, "build")
    run.judge("TraceBulk", "build", env={"WHAT": "build"}, min_lines=1000)


def c05(run):
    exe = build("bulk")
    run.drive(exe, "storage")
    run.judge("TraceBulk", "storage", env={"WHAT": "storage"}, min_lines=500)


def c06(run):
    histories(run, build("map"), "GenMap", "history", "TraceMap")


def c07(run):
    exe = build("map")
    run.drive(exe, "joins")
    run.judge("TraceJoin", "joins", min_lines=1000)


def histories(run, exe, gen, what, module, extra=(), min_lines=3000, num=150, env=None, suffix=""):
    """behaviours generated from the specification and random ones, run by the driver, judged by the specification"""
    script = run.generate(gen, gen + suffix, run.sub("gen/script.ndjson"), num=num * 10 if run.tier == "thorough" else num, depth=40)
    run.drive(exe, what, ["script=" + script] + list(extra))
    run.judge(module, what, cfg=module + suffix, env=env, min_lines=min_lines)


def c08(run):
    exe = build("ord")
    run.drive(exe, "order")
    run.judge("TraceOrder", "order", min_lines=3000)


def c09(run):
    exe = build("tot")
    histories(run, exe, "GenTotalSet", "sets", "TraceTotalSet")
    run.drive(exe, "setop")
    run.judge("TraceTotalPair", "setop", env={"WHAT": "setop"}, min_lines=1000)


def c10(run):
    exe = build("tot")
    run.drive(exe, "setrel")
    run.judge("TraceTotalPair", "setrel", env={"WHAT": "setrel"}, min_lines=1000)


def c11(run):
    exe = build("tot")
    histories(run, exe, "GenTotalMap", "maps", "TraceTotalMap")


def c12(run):
    exe = build("tot")
    run.drive(exe, "map")
    run.judge("TraceTotalPair", "map", env={"WHAT": "map"}, min_lines=1000)


def c13(run):
    histories(run, build("radix"), "GenRadix", "history", "TraceRadix", env={"WHAT": "map"})


def c14(run):
    histories(run, build("radix"), "GenRadix", "history", "TraceRadix", env={"WHAT": "shape"})


def radix_pairs(run, what):
    run.drive(build("radix"), what)
    run.judge("TraceRadixPair", what, env={"WHAT": what}, min_lines=3000)


def c15(run):
    radix_pairs(run, "prefixes")


def c16(run):
    radix_pairs(run, "combine")


def c17(run):
    radix_pairs(run, "relations")


def race(run, what):
    """threads that share nodes and nothing else, watched by the thread sanitizer"""
    exe = build_tsan("race")
    if exe is None:
        run.assumptions.append("the thread sanitizer was not available: races were judged by results alone")
        exe = build("race")
    try:
        run.drive(exe, what, name="race-" + what)
    except ToolError as e:
        if "FATAL: ThreadSanitizer" not in str(e):
            raise
        run.assumptions.append("the thread sanitizer gave up: races were judged by results alone")
        run.drive(build("race"), what, name="race-" + what)
    run.judge("TraceRace", what, name="race-" + what, min_lines=1000)


def c18(run):
    histories(run, build("radix"), "GenRadix", "snapshots", "TraceRadix", env={"WHAT": "both"}, suffix="5")
    race(run, "arc")


def c19(run):
    run.drive(build("lazy"), "lazy")
    run.judge("TraceLazy", "lazy", env={"WHAT": "lazy"}, min_lines=3000)
    race(run, "lazy")


def c21(run):
    run.drive(build("serde_d"), "serde")
    run.judge("TraceSerde", "serde", min_lines=3000)


def c22(run):
    run.drive(build("rkyv_d"), "answers")
    run.judge("TraceArchive", "answers", min_lines=3000)


def c23(run):
    run.drive(build("rkyv_d"), "valid")
    run.judge("TraceValid", "valid", min_lines=20000)


def c24(run):
    exe = build("own")
    run.drive(exe, "ledger")
    run.judge("TraceOwn", "ledger", env={"HELD": "1"}, min_lines=3000)
    listed = known_findings().get("C24", {})
    for site in ("held-flat", "held-shared"):
        run.drive(exe, site)
        # apart from the references kept, everything must be as always
        run.judge("TraceOwn", site, env={"HELD": "0"}, min_lines=20)
        try:
            run.judge("TraceOwn", site, env={"HELD": "1"}, min_lines=20)
        except Violation:
            if site not in listed:
                raise
            run.known.append(site + ": " + listed[site])


def c25(run):
    run.drive(build("own"), "faults")
    run.judge("TraceOwn", "faults", env={"HELD": "1"}, min_lines=3000)
    run.drive(build("lazy"), "shaken")
    run.judge("TraceLazy", "shaken", env={"WHAT": "shaken"}, min_lines=3000)


def c26(run):
    run.drive(build("btree"), "joins")
    run.judge("TraceBTree", "joins", min_lines=1000)


def c27(run):
    run.drive(build("iter"), "walks")
    run.judge("TraceIter", "walks", min_lines=1000)


def c28(run):
    run.drive(build("cost"), "compare")
    run.judge("TraceCost", "compare", min_lines=3000)


def c29(run):
    run.drive(build("cost"), "storage")
    run.judge("TraceStorage", "storage", min_lines=3000)


def c30(run):
    run.drive(build("share"), "share")
    run.judge("TraceShare", "share", min_lines=5000)
    run.drive(build("lazy"), "arcs")
    run.judge("TraceLazy", "arcs", env={"WHAT": "arcs"}, min_lines=3000)


def c31(run):
    run.drive(build("text"), "text")
    run.judge("TraceText", "text", min_lines=3000)


# the design models that stand behind a property: exhaustively checked by TLC with every run
DESIGN = dict(
    C01=('MC_VecRep',),
    C02=('MC_Merge', 'MC_VecRep'),
    C03=('MC_Merge',),
    C04=('MC_SortDedup', 'MC_VecRep'),
    C05=('MC_SortDedup',),
    C06=('MC_Joins',),
    C07=('MC_Joins', 'MC_Merge'),
    C08=('MC_VecRep',),
    C09=('MC_TotalSet',),
    C10=('MC_TotalSet',),
    C11=('MC_TotalMap',),
    C12=('MC_TotalMap',),
    C13=('MC_Radix',),
    C14=('MC_Radix',),
    C15=('MC_Radix',),
    C16=('MC_Radix',),
    C17=('MC_Radix',),
    C18=('MC_Cow',),
    C19=('MC_CowLazy',),
    C21=('MC_SortDedup',),
    C22=('MC_Archive',),
    C23=('MC_Archive',),
    C24=('MC_Merge', 'MC_Cow'),
    C25=('MC_Merge', 'MC_Panic'),
    C26=('MC_Joins',),
    C27=('MC_Radix',),
    C28=('MC_Merge',),
    C29=('MC_VecRep', 'MC_Merge'),
    C30=('MC_Persist', 'MC_Cow'),
    C31=('MC_Text',),
)


def with_models(pid, check):
    def run_both(run):
        mc = run.models(*DESIGN[pid])
        check(run)
        finish(mc)
    return run_both


NOTES = {}
NOT_APPLICABLE = {}
CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07,
              C08=c08, C09=c09, C10=c10, C11=c11, C12=c12,
              C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C21=c21,
              C22=c22, C23=c23, C24=c24, C25=c25, C26=c26, C27=c27, C28=c28, C29=c29, C30=c30, C31=c31)
CHECKS = {p: with_models(p, c) for p, c in CHECKS.items()}

if __name__ == "__main__":
    main(CHECKS)
