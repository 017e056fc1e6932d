#!/usr/bin/env python3
"""usage: corrupt.py [PER_TRACE [SEED]]
How sharply do the trace specifications judge?  Takes the traces the quick checks left under .run, changes one number
or truth value in one recorded line at a time, and asks the trace specification again.  Reports, per trace, how many
of the changed lines were rejected, and the places whose change was accepted.  Not a check; run by hand."""
import collections, copy, random
import vlib
from vlib import *

TRACES = [  # property, directory, trace, module, cfg, env
    ("C01", "history", "history", "TraceSet", None, {}),
    ("C02", "algebra", "algebra", "TraceAlgebra", None, {"WHAT": "algebra"}),
    ("C03", "relations", "relations", "TraceAlgebra", None, {"WHAT": "relations"}),
    ("C04", "build", "build", "TraceBulk", None, {"WHAT": "build"}),
    ("C05", "storage", "storage", "TraceBulk", None, {"WHAT": "storage"}),
    ("C06", "history", "history", "TraceMap", None, {}),
    ("C07", "joins", "joins", "TraceJoin", None, {}),
    ("C08", "order", "order", "TraceOrder", None, {}),
    ("C09", "sets", "sets", "TraceTotalSet", None, {}),
    ("C09", "setop", "setop", "TraceTotalPair", None, {"WHAT": "setop"}),
    ("C10", "setrel", "setrel", "TraceTotalPair", None, {"WHAT": "setrel"}),
    ("C11", "maps", "maps", "TraceTotalMap", None, {}),
    ("C12", "map", "map", "TraceTotalPair", None, {"WHAT": "map"}),
    ("C13", "history", "history", "TraceRadix", None, {"WHAT": "map"}),
    ("C15", "prefixes", "prefixes", "TraceRadixPair", None, {"WHAT": "prefixes"}),
    ("C16", "combine", "combine", "TraceRadixPair", None, {"WHAT": "combine"}),
    ("C17", "relations", "relations", "TraceRadixPair", None, {"WHAT": "relations"}),
    ("C18", "snapshots", "snapshots", "TraceRadix", "TraceRadix5", {"WHAT": "both"}),
    ("C18", "race-arc", "arc", "TraceRace", None, {}),
    ("C19", "lazy", "lazy", "TraceLazy", None, {"WHAT": "lazy"}),
    ("C30", "lazy", "arcs", "TraceLazy", None, {"WHAT": "arcs"}),
    ("C31", "text", "text", "TraceText", None, {}),
    ("C21", "serde", "serde", "TraceSerde", None, {}),
    ("C22", "answers", "answers", "TraceArchive", None, {}),
    ("C23", "valid", "valid", "TraceValid", None, {}),
    ("C24", "ledger", "ledger", "TraceOwn", None, {"HELD": "1"}),
    ("C25", "faults", "faults", "TraceOwn", None, {"HELD": "1"}),
    ("C26", "joins", "joins", "TraceBTree", None, {}),
    ("C27", "walks", "walks", "TraceIter", None, {}),
    ("C28", "compare", "compare", "TraceCost", None, {}),
    ("C29", "storage", "storage", "TraceStorage", None, {}),
    ("C30", "share", "share", "TraceShare", None, {}),
]


def leaves(x, path=()):
    if isinstance(x, bool) or isinstance(x, int):
        yield path
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))


def change(rec, path, rnd):
    rec = copy.deepcopy(rec)
    at = rec
    for k in path[:-1]:
        at = at[k]
    v = at[path[-1]]
    at[path[-1]] = (not v) if isinstance(v, bool) else v + rnd.choice([1, -1]) if v > 0 else v + 1
    return rec


def name(path):
    return ".".join("*" if isinstance(k, int) else k for k in path)


def one(job):
    d, module, cfg, env, lines = job
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = os.path.join(d, "t.ndjson")
    with open(t, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        judge(module, cfg or module, t, d, env=env, workers=1, timeout=120)
        return "accepted"
    except Violation:
        return "rejected"
    except ToolError as e:
        return "error " + str(e)[:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    per = int(sys.argv[1]) if len(sys.argv) > 1 else 24
    rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    pool = ThreadPoolExecutor(int(os.environ.get("JOBS", "6")))
    for pid, sub, what, module, cfg, env in TRACES:
        if only and pid not in only:
            continue
        f = os.path.join(RUN, "%s-quick" % pid, sub, what + ".ndjson")
        if not os.path.exists(f):
            print(pid, what, "no trace")
            continue
        all_lines = open(f).read().splitlines()
        # what the first line of a history has in it
        mark = next((m for m in ('"o":"reset"', '"o":"open"', '"first":1') if any(m in l for l in all_lines[:3])), None)
        jobs, what_changed = [], []
        while len(jobs) < per:
            n = rnd.randrange(len(all_lines))
            rec = json.loads(all_lines[n])
            ps = list(leaves(rec))
            if not ps or (mark and mark in all_lines[n]):
                continue
            # every place counts the same, however many numbers it holds
            by = collections.defaultdict(list)
            for p in ps:
                by[name(p)].append(p)
            p = rnd.choice(by[rnd.choice(sorted(by))])
            start = n
            if mark:
                while mark not in all_lines[start]:
                    start -= 1
            bad = json.dumps(change(rec, p, rnd), separators=(",", ":"))
            what_changed.append(("%s %s" % (rec.get("o", ""), name(p)), all_lines[n][:200], bad[:200]))
            jobs.append((os.path.join(RUN, "corrupt", "%s-%s-%d" % (pid, what, len(jobs))), module, cfg, env, all_lines[start:n] + [bad]))
        res = list(pool.map(one, jobs))
        c = collections.Counter(r.split()[0] for r in res)
        acc = collections.Counter(w[0] for w, r in zip(what_changed, res) if r == "accepted")
        print(pid, what, dict(c), "accepted:", dict(acc), flush=True)
        if os.environ.get("SHOW"):
            for w, r in zip(what_changed, res):
                if r != "rejected":
                    print("   ", r, w)


if __name__ == "__main__":
    main()
