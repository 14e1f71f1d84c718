#!/usr/bin/env python3
"""check.py PROPERTY          one property's check (tier and seed from VERIF_TIER, VERIF_SEED)
   check.py --replay FILE     re-run the case of a replay file on /repo's current tree"""
import hashlib, json, os, re, shutil, subprocess, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF, os.path.join(VERIF, "dyn")]
import prove, build, run as dynrun, families

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
EVID = os.path.join(VERIF, "evidence")

# bounded stand-in: property -> [(family, number of grammars)], for the quick tier
DYN = {
    "C01": [("cfg", 240), ("mix", 160), ("fallback", 160), ("wildcard", 120), ("static", 1)],
    "C02": [("cfg", 240), ("fallback", 160), ("wildcard", 160), ("mix", 160), ("prec", 120)],
    "C03": [("cfg", 200), ("class", 160), ("mix", 160), ("sugar", 40), ("static", 1)],
    "C04": [("cfg", 280), ("mix", 160), ("fallback", 160), ("wildcard", 80)],
    "C05": [("prec", 320), ("cl:prec", 600), ("mix", 120), ("static", 1)],
    "C06": [("cl:cfg", 600), ("cl:prec", 700), ("cl:class", 300), ("cl:mix", 300), ("bad", 4), ("prec", 120)],
    "C07": [("fallback", 320), ("mix", 240), ("cl:fallback", 200), ("bad", 8)],
    "C08": [("wildcard", 400), ("mix", 200), ("cl:wildcard", 300)],
    "C09": [("error", 320), ("cfg", 120), ("mix", 200), ("limit", 80), ("static", 1)],
    "C10": [("limit", 400), ("error", 120), ("static", 1)],
    "C11": [("mix", 200), ("error", 160), ("prec", 160), ("fallback", 80), ("limit", 80), ("class", 80), ("big", 6), ("sugar", 40), ("loops", 2)],
    "C12": [("cfg", 160), ("fallback", 200), ("wildcard", 160), ("error", 160), ("prec", 120), ("static", 1)],
    "C13": [("sugar", 160), ("class", 240), ("static", 1), ("bad", 4)],
    "C14": [("big", 14), ("cfg", 160), ("mix", 160), ("class", 100)],
    "C15": [("bad", 14), ("cl:cfg", 500), ("cl:prec", 400), ("cl:mix", 300), ("cl:class", 200), ("sugar", 40), ("static", 1)],
    "C16": [("cfg", 120), ("error", 120), ("limit", 120), ("static", 1)],
}
BUDGET = {"quick": 110, "thorough": 780}


def family(fam, seeds, args, wd, deadline, viol, stats):
    if fam.startswith("cl:"):
        families.run_classify(fam[3:], seeds, args, wd, viol, stats)
    elif fam == "bad":
        families.run_bad(seeds, args, wd, viol, stats)
    elif fam == "big":
        families.run_big(seeds, args, wd, deadline, viol, stats)
    elif fam == "sugar":
        families.run_sugar(seeds, args, wd, deadline, viol, stats)
    elif fam == "static":
        families.run_static(args, wd, viol, stats)
    elif fam == "loops":
        families.run_loops(args, wd, viol, stats)
    else:
        dynrun.run_family(fam, seeds, args, wd, 150, 20, True, deadline, viol, stats)


def seeds_for(fam, n, rnd_no):
    h = int(hashlib.sha256(("%s-%d-%d" % (fam, SEED, rnd_no)).encode()).hexdigest()[:8], 16)
    return range(h, h + n)


def known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                out.append(l)
    return out


def kind(v):
    m = re.search(r"\[([a-z]+(-[a-z]+)+)\]", v[3])
    return m.group(1) if m else None


def dynamic(prop, args, t0, budget, rounds, stop_on_hit):
    """-> (violations of prop, of others, stats)"""
    wd = os.path.join(build.BUILD, "work_%s_%d" % (prop, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    hits, others, stats = [], [], {}
    try:
        for k in range(rounds):
            for fam, n in DYN[prop]:
                if fam in ("static", "loops") and k:
                    continue
                left = t0 + budget - time.time()
                if left < 3:
                    stats["stopped_by_time"] = True
                    return hits, others, stats
                v = []
                family(fam, seeds_for(fam, n, k), args, wd, t0 + budget, v, stats)
                stats.setdefault("families", {})
                stats["families"][fam] = stats["families"].get(fam, 0) + n
                hits += [x for x in v if prop in x[2]]
                others += [x for x in v if prop not in x[2]]
                if hits and stop_on_hit:
                    return hits, others, stats
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return hits, others, stats


def write_replay(prop, data):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return os.path.relpath(p, VERIF)


def case_data(v):
    d = dynrun.describe(v)
    d["family"], d["seed"] = v[0].fam, v[0].seed
    return d


def main(prop):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "other")
    # ---- deductive part
    results, prove_note = [], ""
    try:
        results = prove.run_units(prove.units_for(prop))
    except prove.NotBuilt as e:
        prove_note = str(e)
    failed, notredone = [], []
    for r in results:
        props, fns, _ = prove.unit_info(r.unit)
        for f, m, where in r.failed:
            tags = fns.get(f) or props
            if prop in tags:
                failed.append({"unit": r.unit, "function": f, "obligation": m, "at": where})
        if r.status == "not redone":
            notredone.append({"unit": r.unit, "why": r.why})
        if r.status == "failed" and not any(x["unit"] == r.unit for x in failed):
            notredone.append({"unit": r.unit, "why": "an obligation of another property failed: %s" % (r.failed[:2],)})
        if r.vacuous:
            notredone.append({"unit": r.unit, "why": "vacuous contracts: %s" % r.vacuous})
        for x in r.trusted:
            if x.startswith("ASSUME"):
                notredone.append({"unit": r.unit, "why": x})
    t_prove = time.time() - t0
    # ---- bounded part: stand-in, and search for a failing input
    hits, others, stats, build_note = [], [], {}, ""
    try:
        args = build.build_pomelo()
        if TIER == "thorough":
            hits, others, stats = dynamic(prop, args, t0, BUDGET["thorough"], 1000, False)
        else:
            hits, others, stats = dynamic(prop, args, time.time(), BUDGET["quick"], 1, False)
            if failed and not hits:
                h, o, s2 = dynamic(prop, args, t0, 420, 6, True)
                hits, others = h, others + o
                stats["search"] = s2.get("families")
    except build.CannotBuild as e:
        build_note = "the crate does not build: " + str(e)[-400:]
    known_l = known()
    kf = []
    fresh = []
    for v in hits:
        k = next((l for l in known_l if "property=%s " % prop in l and 
                  ("kind=%s " % kind(v) in l if kind(v) else "family=%s seed=%s " % (v[0].fam, v[0].seed) in l)), None)
        (kf if k else fresh).append(k or v)
    for l in sorted(set(kf)):
        print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 3)[3]))
    # ---- evidence
    ob = sum(r.verified + r.errors for r in results)
    dis = sum(r.verified for r in results if r.status != "not redone")
    cov = {
        "obligations": ob,
        "discharged": dis,
        "checker_cmd": "vx-extract %s contracts/UNIT.vx UNIT.rs; verus UNIT.rs --multiple-errors 6 (back end Z3), for UNIT in: %s" % (build.REPO, ", ".join(r.unit for r in results) or "none"),
        "trusted_base": sorted({"%s" % x for r in results for x in r.trusted}) + TRUSTED_TEXT,
        "obligation_unit": "one Verus verification condition per function, loop-carrying functions included with all their loop conditions",
        "functions_under_contract": {r.unit: sorted(r.src.values()) if hasattr(r, "src") else sorted(r.fns) for r in results},
        "units": {r.unit: {"status": r.status, "verified": r.verified, "errors": r.errors, "solver_ms": r.smt_ms, "wall_s": round(r.wall, 1),
                           "vacuity_check": "every contracted function fails assert(false) at its start" if r.status == "discharged" and not r.vacuous else r.vacuous or "not run"} for r in results},
        "proofs_not_redone": notredone + ([{"unit": "*", "why": prove_note}] if prove_note else []),
        "failed_obligations": failed,
        "evaluations": stats.get("runs", 0) + stats.get("verdicts", 0) + stats.get("wellformedness", 0) + stats.get("fixed_checks", 0),
        "distinct_nontrivial": stats.get("nontrivial", 0) + stats.get("conflict", 0) + len(stats.get("faults", ())),
        "rule": "bounded stand-in, never counted as proved: grammars drawn at random (families below, seed VERIF_SEED), each compiled by the real macro; "
                "token sequences enumerated by length up to 150 per grammar plus 20 random sentences, mutations and extensions; every call compared "
                "with an independent LALR(1)/Earley reference; non-trivial: at least two tokens, or a grammar with an undecided conflict, or a distinct kind of fault",
        "samples": [stats[k] for k in ("sample", "sample_shorthand") if k in stats] or [{"families": stats.get("families")}],
        "bounded": {k: (sorted(v) if isinstance(v, set) else v) for k, v in stats.items() if not k.startswith("sample")},
        "explanation": "deductive part: Verus on the functions listed; bounded part: differential runs of the real macro and parser",
    }
    if build_note:
        cov["build"] = build_note
    viol = []
    if fresh:
        v = fresh[0]
        rep = case_data(v)
        rep["failed_obligations"] = failed
        rep["verifier_output"] = "\n".join(r.rendered for r in results if r.failed)[:8000]
        rep["more"] = [x[3][:200] for x in fresh[1:6]]
        path = write_replay(prop, rep)
        viol.append("VIOLATION property=%s replay=%s" % (prop, path))
        why = v[3]
    elif failed:
        rep = {"property": prop, "failed_obligations": failed, "verifier_output": "\n".join(r.rendered for r in results if r.failed),
               "note": "these obligations are discharged on the unchanged tree; no failing input was found by the bounded search"}
        path = write_replay(prop, rep)
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        why = "%s: %s" % (failed[0]["function"], failed[0]["obligation"])
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 1), "violations": viol}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for r in results:
        print("unit %-10s %-11s %3d verified %d errors %5.1fs %s" % (r.unit, r.status, r.verified, r.errors, r.wall, r.why[:200]))
    print("bounded: %s" % {k: (len(v) if isinstance(v, set) else v) for k, v in stats.items() if not k.startswith("sample")}, build_note)
    for v in others[:3]:
        print("note: a case of other properties %s failed: %s" % (sorted(v[2]), v[3][:200]))
    print("%.0f s (deductive %.0f s)" % (time.time() - t0, t_prove))
    if viol:
        print("because:", why[:500])
        print(viol[0])
        return 1
    return 0


TRUSTED_TEXT = [
    "the extractor's rewriting rules (/verif/extract, listed in DESIGN.md)",
    "Verus, Z3, rustc",
    "RefCell borrow panics in vecref.rs are dropped by the extraction",
]
ASSUMPTIONS = [
    "dependencies (syn, quote, proc-macro2) behave as documented",
    "the user's code blocks are arbitrary; when they panic nothing is claimed",
]


def replay(path):
    d = json.load(open(path))
    if "seed" not in d:
        print(json.dumps(d.get("failed_obligations"), indent=1))
        print("re-run: python3 prove.py " + " ".join({x["unit"] for x in d.get("failed_obligations", [])}))
        return 0
    args = build.build_pomelo()
    wd = os.path.join(build.BUILD, "work_replay")
    os.makedirs(wd, exist_ok=True)
    v = []
    fam, s = d["family"], d["seed"]
    if fam not in ("bad", "big", "sugar", "static", "loops") and "verdict" in d.get("message", ""):
        fam = "cl:" + fam
    family(fam, [s], args, wd, time.time() + 300, v, {})
    if not v and not fam.startswith("cl:") and fam not in ("bad", "big", "sugar", "static", "loops"):
        family("cl:" + fam, [s], args, wd, time.time() + 300, v, {})
    for x in v[:3]:
        print(json.dumps(case_data(x), indent=1).replace("\\n", "\n"))
    print("reproduced" if v else "not reproduced")
    return 1 if v else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
