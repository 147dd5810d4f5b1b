#!/usr/bin/env python3
"""One check: decides one property of /repo's current tree.

  python3 check.py P05            quick tier (or the tier named by VERIF_TIER)
  python3 check.py P05 --replay F reruns the failing case recorded in F

1. Every unit (function under contract) tagged with the property, and every unit those call, is extracted from the
   current C++ source, spliced with its contract and given to Verus; each must verify, and a planted assert(false) at its
   exit must fail (vacuity).
2. The executable form of the contracts runs on the real code (replay/pNN.cpp, sanitizers on): failing inputs for
   violations, and the labelled bounded stand-in for functions the verifier does not reach.
"""
import os, sys, json, time, shutil, tempfile, re, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tool"))
from concurrent.futures import ThreadPoolExecutor
import build as B
import harness as HN
from cxxast import ExtractError

REPO = os.environ.get("VERIF_REPO", "/repo")


def plan(world, prop):
    """units tagged with the property plus (transitively) every unit whose contract they are checked against; each with its
    generated crate.  -> {unit: record}"""
    todo = [u for u, c in world.contracts.items() if prop in c.head.get("props", "").split()]
    recs, libs = {}, []
    while todo:
        u = todo.pop(0)
        if u in recs:
            continue
        r = recs[u] = {"unit": u, "status": "?", "errors": [], "callees": []}
        try:
            text, lm, info = B.generate(world, u)
        except ExtractError as e:
            r.update(status="extract", why=str(e))
            continue
        except Exception as e:
            r.update(status="extract", why="%s: %s" % (type(e).__name__, e))
            continue
        r.update(text=text, lm=lm, info=info, callees=info["callees"])
        try:
            r["probe_text"], r["probe_lm"], _ = B.generate(world, u, probe="exit")
        except Exception:
            r["probe_text"] = text
        todo += info["callees"]
        libs += [l for l in info["libs"] if l not in libs]
    order = [l for l in B.all_libs() if l in libs]
    return recs, order


def prove(r, scratch, timeout):
    """runs the verifier on one generated unit and on its vacuity probe; completes the record"""
    if "text" not in r:
        return r
    t0 = time.time()
    unit, text, lm = r["unit"], r.pop("text"), r.pop("lm")
    ptext, plm = r.pop("probe_text"), r.pop("probe_lm", None)
    p = os.path.join(scratch, unit + ".rs")
    open(p, "w").write(text)
    v = B.run_verus(p, timeout)
    if v["status"] == "failed" and r["info"]["isolate"] and r["info"]["text_changed"]:
        # loops of this unit are checked from their invariants alone, which cannot speak of locals the edited code added:
        # the same obligations once more, each loop also knowing what holds of the variables it leaves alone
        att = "#[verifier::loop_isolation(false)]" + (" #[verifier::allow_complex_invariants]" if r["info"]["complex"] else "") + " "
        tw = text.split("\n")
        k = max(i for i, l in enumerate(tw) if l.startswith("#[verifier::rlimit("))
        tw[k] = att + tw[k]
        open(p, "w").write("\n".join(tw))
        v2 = B.run_verus(p, timeout)
        if v2["status"] == "ok" or (r["info"]["new_locals"] and (v2["status"] != "failed" or v2.get("rlimit"))):
            v = v2
    r.update(status=v["status"], verified=v.get("verified", 0), nerr=v.get("nerr", 0), smt_ms=v.get("smt_ms", 0), rlimit=v.get("rlimit", False))
    tl = text.split("\n")
    lo = max(i for i, l in enumerate(tl) if l.startswith("pub fn " + unit + "("))
    r["trusted"] = trusted_used(text, "\n".join(tl[lo:]))
    r["contract_clauses"] = sum(1 for i, o in enumerate(lm) if o and o[0] == "contract" and tl[i].rstrip().endswith(","))
    if v["status"] == "ok":
        if ptext != text:
            pp = os.path.join(scratch, unit + "_probe.rs")
            # a refutation needs no effort from the solver: a small resource limit first, the unit's own only if the probe stays open
            for small in (True, False):
                t2 = re.sub(r"verifier::rlimit\((\d+)\)", lambda m: "verifier::rlimit(%d)" % min(int(m.group(1)), 3), ptext) if small else ptext
                if small and t2 == ptext:
                    continue
                open(pp, "w").write(t2)
                pv = B.run_verus(pp, timeout, probe=True)
                bad = [ln for e in pv["errors"] for (ln, lab, prim) in e["spans"] if prim and ln <= len(plm) and plm[ln - 1] and plm[ln - 1][0] == "probe"]
                if bad or pv["status"] == "ok":
                    break
            r["probe"] = "fails as it must" if bad else "NOT REFUTED (%s)" % pv["status"]
            if not bad and pv["status"] == "ok":
                r["status"], r["why"] = "vacuous", "assert(false) at the exit verifies"
        else:
            r["probe"] = "no common exit point"
    if v["status"] == "failed":
        for e in v["errors"]:
            spans = []
            for (ln, lab, prim) in e["spans"]:
                if ln <= len(tl):
                    spans.append({"text": tl[ln - 1].strip(), "label": lab, "origin": lm[ln - 1] if ln <= len(lm) else None, "primary": prim})
            r["errors"].append({"msg": e["msg"], "spans": spans})
    elif v["status"] != "ok":
        r["why"] = (v["errors"][0]["msg"] if v["errors"] else v.get("raw", ""))[:600]
    r["wall"] = time.time() - t0
    return r


def prove_libs(order, scratch, timeout):
    """the lemma libraries (and the prelude) the units use, verified once"""
    if not order:
        return {"unit": "lemma libraries", "status": "ok", "verified": 0, "nerr": 0, "libs": []}
    text, lm = B.gen_libs(order)
    p = os.path.join(scratch, "libs.rs")
    open(p, "w").write(text)
    v = B.run_verus(p, timeout, libs=True)
    return {"unit": "lemma libraries", "status": v["status"], "verified": v.get("verified", 0), "nerr": v.get("nerr", 0), "libs": order, "smt_ms": v.get("smt_ms", 0),
            "why": (v["errors"][0]["msg"] if v["errors"] else v.get("raw", ""))[:600] if v["status"] != "ok" else ""}


def trusted_used(text, body):
    """external_body / assume / uninterpreted items the unit's own text can reach"""
    out = set()
    for m in re.finditer(r"#\[verifier::external_body\]\s*\n?\s*pub (?:proof )?fn (\w+)", text):
        if re.search(r"\b%s\b" % m.group(1), body):
            out.add(m.group(1))
    for w in ("assume(", "admit("):
        if w in text:
            out.add(w + ")")
    return sorted(out)


def genuine(r):
    """an obligation of an aligned unit that the verifier refused, not a resource limit"""
    if r["status"] != "failed" or r.get("rlimit"):
        return False
    if r["info"]["shape_changed"] or r["info"]["unused"]:
        return False
    return bool(r["errors"])


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    conf = json.load(open(os.path.join(ROOT, "props.json")))["claimed"][prop]
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        if "--replay" in sys.argv:
            return replay(prop, conf, sys.argv[sys.argv.index("--replay") + 1], scratch)
        return decide(prop, conf, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, conf, path, scratch):
    d = json.load(open(path))
    f = d.get("failure")
    if not f:
        print(json.dumps(d, indent=1))
        return 0
    bins = HN.build(REPO, scratch, [conf["harness"]])
    cmd = [bins[conf["harness"]]] + f["cmd"][1:]
    if "--report" in cmd:
        k = cmd.index("--report")
        cmd = cmd[:k] + cmd[k + 2:]
    if f["case"] >= 0:
        cmd += ["--only", str(f["case"])]
    import subprocess
    p = subprocess.run(cmd, env=HN.ENV)
    return 1 if p.returncode else 0


def decide(prop, conf, tier, seed, scratch, t0):
    quick = tier != "thorough"
    world = B.World(REPO)
    plans, order = plan(world, prop)
    units = sorted(plans)
    hname = conf["harness"]
    ht = conf.get("time", 6) if quick else conf.get("time_thorough", 120)
    recs, fails, stats, herr = [], [], {"cases": 0, "nontrivial": 0, "per": {}, "samples": [], "shards_done": 0}, None
    with ThreadPoolExecutor(5) as ex:
        hb = ex.submit(HN.build, REPO, os.path.join(scratch, "h"), [hname], 4)
        lf = ex.submit(prove_libs, order, scratch, 300)
        fut = [ex.submit(prove, plans[u], scratch, 150 if quick else 600) for u in units]
        try:
            bins = hb.result()
        except RuntimeError as e:
            bins, herr = None, str(e)
        recs = [f.result() for f in fut]
        lrec = lf.result()
    if bins:
        fails, stats = HN.run(bins[hname], seed, ht, 6, scratch)
        if fails and all(f.get("infra") for f in fails):
            # a harness process that died without a report: look again once, then report what is left
            fails2, stats2 = HN.run(bins[hname], seed, ht, 6, scratch)
            fails = fails2
            stats = stats2 if stats2["cases"] else stats
            fails = [f for f in fails if f["why"] != "harness ended with timeout"]
    failed = [r for r in recs if genuine(r)]
    undecided = [r for r in recs if r["status"] != "ok" and r not in failed]
    proved = [r for r in recs if r["status"] == "ok"]
    if (failed or undecided) and not fails and bins and quick:
        # something no longer verifies: search longer for a failing input before reporting
        f2, s2 = HN.run(bins[hname], seed + 7, conf.get("time_search", 40), 8, scratch)
        f2 = [f for f in f2 if not f.get("infra")]
        fails += f2
        stats["cases"] += s2["cases"]
        stats["nontrivial"] += s2["nontrivial"]
    rc = 0
    nviol = 0
    rp = os.path.join(ROOT, "evidence", prop + ".replay.json")
    if os.path.exists(rp):
        os.remove(rp)
    oblig = [{"function": r["unit"], "failed": r["errors"]} for r in failed]
    if fails:
        rc, nviol = 1, len(fails)
        f = fails[0]
        json.dump({"property": prop, "kind": "failing input on the real code", "failure": f, "all": [{k: x[k] for k in ("fn", "case", "why", "input")} for x in fails],
                   "failed_obligations": oblig, "how": "python3 /verif/check.py %s --replay %s" % (prop, rp)}, open(rp, "w"), indent=1)
        print("%s: %s: %s" % (prop, f["fn"], f["why"]))
        print("  input: %s" % f["input"][:1500])
        for o in oblig:
            print("  failed obligation in %s: %s" % (o["function"], fmt(o["failed"][0])))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    elif failed:
        rc, nviol = 1, len(failed)
        json.dump({"property": prop, "kind": "failed obligation", "failed_obligations": oblig}, open(rp, "w"), indent=1, default=str)
        for o in oblig:
            for e in o["failed"]:
                print("  failed obligation in %s: %s" % (o["function"], fmt(e)))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    elif not bins and not proved:
        print("no answer: the harness does not build and nothing was proved: %s" % (herr or "")[:2000])
        rc = 2
    for r in undecided:
        print("undecided (labelled bounded in this run): %s: %s %s" % (r["unit"], r["status"], r.get("why", "") or ("loop structure or anchors changed" if r["status"] == "failed" else "")))
    # ---- evidence
    trusted = sorted(set(x for r in recs for x in r.get("trusted", []) if x not in world.contracts))
    n_ob = sum(max(r.get("verified", 0) + r.get("nerr", 0), 1) for r in recs) + lrec["verified"] + lrec["nerr"]
    n_ok = sum(r.get("verified", 0) for r in recs) + lrec["verified"]
    notes = []
    for u in units:
        notes += world.contracts[u].head.get("note", [])
    cov = {
        "obligations": n_ob, "discharged": n_ok,
        "checker_cmd": "verus <unit>.rs --crate-type=lib --output-json (Verus 0.2026.09.13, Z3 back end), one crate per unit, generated by tool/build.py from /repo on this run",
        "trusted_base": ["extraction C++ AST (clang -ast-dump=json) -> Verus: tool/trans.py", "clang 18 front end, Verus and Z3"] + ["trusted contract: " + x for x in trusted],
        "obligation_unit": "one Verus verification item (function body, or lemma) as counted by the verifier on this run; every item carries all its safety, invariant, termination and postcondition conditions",
        "functions_under_contract": [{"unit": r["unit"], "function": (world.contracts[r["unit"]].head.get("ns", "") + "::" + world.contracts[r["unit"]].head["name"]), "source": world.contracts[r["unit"]].head["src"],
                                      "status": {"ok": "proved"}.get(r["status"], "undecided: " + r["status"]), "items": r.get("verified", 0), "contract_clauses": r.get("contract_clauses", 0), "vacuity_probe": r.get("probe", ""),
                                      "solver_ms": r.get("smt_ms", 0), "checked_against_contracts_of": r.get("callees", []), "inlined": r.get("info", {}).get("inlined", [])} for r in recs],
        "lemma_libraries": lrec,
        "bounded_functions": bounded_of(conf, world, recs) + [r["unit"] + " (undecided on this run)" for r in undecided],
        "evaluations": stats["cases"], "distinct_nontrivial": stats["nontrivial"],
        "rule": conf["rule"], "samples": stats["samples"] or ["none"], "evaluations_per_function": stats["per"],
        "bounded_label": "the evaluations are a bounded check of the executable contracts on the real code (sizes and time limits as in the rule); they count as proof of nothing",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf["level"], "coverage": cov,
          "assumptions": conf.get("assumptions", []) + sorted(set(notes)), "wall_s": round(time.time() - t0, 1), "violations": nviol}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0:
        print("%s holds: %d units proved (%d items), %d undecided, %d bounded evaluations, %.1fs" % (prop, len(proved), n_ok, len(undecided), stats["cases"], time.time() - t0))
    return rc


def bounded_of(conf, world, recs):
    ok = set(world.contracts[r["unit"]].head["name"] for r in recs if r["status"] == "ok")
    return [f for f in conf["functions"] if f.split("::")[-1].split("(")[0] not in ok]


def fmt(e):
    return e["msg"] + " | " + " ; ".join("%s%s" % (s["text"], " [%s]" % s["label"] if s["label"] else "") for s in e["spans"][:3])


if __name__ == "__main__":
    sys.exit(main())
