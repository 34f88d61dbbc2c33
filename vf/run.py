#!/usr/bin/env python3
"""Run the solver queries of one property.

usage: run.py PROPERTY [--tier quick|thorough] [--only QUERY] [-v]
exit 0: held on everything explored; exit 1 + VIOLATION line otherwise."""
import argparse, concurrent.futures, json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, checks

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--native", action="store_true", help="only build the native replays")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    pid = a.property
    t0 = time.time()
    qs = [q for q in checks.queries(pid) if tier == "thorough" or q.tier == "quick"]
    if tier == "quick":
        qs = [q for q in qs if q.only != "thorough"]
    else:
        qs = [q for q in qs if q.only != "quick"]
    if a.only:
        qs = [q for q in qs if re.search(a.only, q.name)]
    budget = float(os.environ.get("VF_BUDGET", 780 if tier == "quick" else 7200))
    work = core.Work(pid)
    def log(m):
        print(" ".join(m.split(" ") if "\n" not in m else m.split())[:300], flush=True)
    if a.native:
        def nat(iq):
            try:
                core.compile_native(work, iq[1], "n%d" % iq[0])
                return None
            except Exception as e:
                return "%s %s" % (iq[1].name, str(e)[-300:])
        try:
            with concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
                bad = [m for m in ex.map(nat, enumerate(qs)) if m]
        finally:
            work.close()
        print("\n".join(bad) or "%s: %d native builds" % (pid, len(qs)))
        return 1 if bad else 0
    recs = []
    try:
        with concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
            futs = {}
            order = sorted(qs, key=lambda q: -q.timeout)
            for q in order:
                futs[ex.submit(core.run_query, work, q, log, t0 + budget)] = q
            for f in concurrent.futures.as_completed(futs):
                q = futs[f]
                try:
                    r = f.result()
                except Exception as e:
                    r = dict(query=q.name, status="error", note=repr(e), wall_s=0, solver_s=0, functions=[])
                r["finding"] = getattr(q, "group", None)
                recs.append(r)
                log("%-10s %-28s %7.1fs solver %6.1fs  %s" % (r["status"], r["query"], r["wall_s"], r["solver_s"],
                    (r.get("note", "") if r["status"] != "holds" or a.v else "")[:600]))
    finally:
        work.close()
    recs.sort(key=lambda r: r["query"])
    findings = checks.known(pid)
    bad = []
    for r in recs:
        if r["status"] != "violated":
            continue
        k = [d for (qn, d) in findings if qn == r["query"]]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]))
        else:
            bad.append(r)
    decided = [r for r in recs if r["status"] in ("holds", "violated")]
    undecided = [r for r in recs if r["status"] not in ("holds", "violated")]
    fn = sorted(set(f for r in recs for f in r.get("functions", [])))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
        coverage=dict(
            explanation="bounded symbolic model checking of the repository's current C sources: goto-cc encodes the functions listed, CBMC decides every harness assertion, memory-safety condition and unwinding assertion over all values within the stated bounds; counterexamples count only after native replay. Values, lengths and histories outside the bounds are not covered.",
            queries=len(recs), queries_decided=len(decided),
            queries_undecided=[dict(query=r["query"], status=r["status"], note=r.get("note", "")[:400]) for r in undecided],
            assertions_discharged=sum(r.get("assertions", 0) for r in decided),
            reachability_witnesses=sum(r.get("reach_witnesses", 0) for r in decided),
            solver_seconds=round(sum(r["solver_s"] for r in recs), 2),
            cbmc_seconds=round(sum(r["wall_s"] for r in recs), 2),
            functions_encoded=fn,
            per_query=[{k: r.get(k) for k in ("query", "status", "variant", "bounds", "stubs", "unwind", "assertions", "reach_witnesses", "variables", "clauses", "wall_s", "solver_s", "earlier_attempts") if r.get(k) not in (None, "", [])} for r in recs]),
        assumptions=checks.assumptions(pid),
        wall_s=round(time.time() - t0, 2), violations=len(bad))
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for r in undecided:
        print("UNDECIDED property=%s query=%s %s" % (pid, r["query"], r["status"]))
    if bad:
        os.makedirs(os.path.join(core.VERIF, "evidence", "replay"), exist_ok=True)
        for r in bad:
            p = os.path.join(core.VERIF, "evidence", "replay", "%s-%s.json" % (pid, r["query"]))
            json.dump(r, open(p, "w"), indent=1)
            print("  %s: %s" % (r["query"], " ".join(r.get("note", "").split())[:400]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if not decided:
        print("no query could be decided")
        return 2
    print("property %s: %d queries decided, %d undecided, %.1f s" % (pid, len(decided), len(undecided), time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
