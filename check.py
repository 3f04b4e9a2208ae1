#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution of /repo's current code."""
import fcntl, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from symlib import *
import specs

EV = os.path.join(V, "evidence")


def known_findings():
    f = os.path.join(V, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native_one(binary, entry, hexin, params, timeout=10):
    """returns (outcome, detail): assert/panic/hang/infeasible/done"""
    cmd = [binary, "one", entry, hexin or "-"] + [str(p) for p in params]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits, errors="replace", env=env(RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        return "hang", "no answer within %d s" % timeout
    m = re.search(r"^ASSERT (.*)$", r.stdout, re.M)
    if r.returncode == 10 and m:
        return "assert", m.group(1)
    if r.returncode == 77:
        return "infeasible", ""
    if r.returncode == 0:
        return "done", r.stdout[-200:]
    return "panic", "exit %d: %s" % (r.returncode, r.stderr.strip()[-600:])


def confirms(kind, msg, out, detail):
    if kind == "assert":
        # a panic or a hang while evaluating the assertion's inputs contradicts it as well
        return out in ("assert", "panic", "hang")
    if kind in ("panic", "ub-check", "memory"):
        return out in ("panic", "hang")
    if kind == "nontermination":
        return out in ("hang", "panic")
    return False


def text_of(entry, hexin, params):
    """the text a template-driven unit builds from the model, if the unit is one"""
    return hexin


def cross_check(prefix, limit):
    """re-decide a sample of the engine's solver queries with a second solver"""
    d, b = os.path.split(prefix)
    fs = sorted(f for f in os.listdir(d) if f.startswith(b) and f.endswith(".smt2"))
    step = max(1, len(fs) // limit)
    agree = dis = 0
    for f in fs[::step][:limit]:
        t = open(os.path.join(d, f)).read()
        exp = t.split("\n", 1)[0].split()[-1]
        if exp not in ("sat", "unsat"):
            continue
        try:
            r = subprocess.run(["cvc5", "--lang", "smt2", "--tlimit=10000", os.path.join(d, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20)
        except subprocess.TimeoutExpired:
            continue
        got = r.stdout.strip().split("\n")[-1]
        if got in ("sat", "unsat"):
            if got == exp:
                agree += 1
            else:
                dis += 1
    return agree, dis


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    spec = specs.SPECS[pid]
    os.makedirs(EV, exist_ok=True)
    evf = os.path.join(EV, pid + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    rdir = os.path.join(EV, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "_"):
            os.unlink(os.path.join(rdir, f))
    groups = spec["groups"](tier)  # list of (features, units)
    work = tempfile.mkdtemp(prefix="symex_")
    tot = dict(paths=0, assume=0, viol=0, unsup=0, steps=0, queries=0, solver_s=0.0, forks=0, unknown=0, incomplete=0)
    funcs, samples, units_ev, notes, viols = set(), [], [], [], []
    validated = mism = 0
    agree = dis = 0
    budget = spec.get("time", {}).get(tier, 150 if tier == "quick" else 2400)
    bt = 0.0
    try:
        for feats, units in groups:
            tb = time.time()
            l = lock()
            eng = build_engine()
            ll = build_ir(feats)
            nat = build_native(feats)
            # private copies: another check may rebuild while this one runs
            myll, mynat = os.path.join(work, "m.ll"), os.path.join(work, "replay")
            for s, d in ((ll, myll), (nat, mynat)):
                if os.path.exists(d):
                    os.unlink(d)
                shutil.copy(s, d)
            l.close()
            bt += time.time() - tb
            uf, of = os.path.join(work, "u"), os.path.join(work, "o.json")
            with open(uf, "w") as f:
                for n, e, p in units:
                    f.write("%s %s %s\n" % (n, e, " ".join(map(str, p))))
            dump = os.path.join(work, "q%d" % len(units_ev))
            cmd = [eng, "run", "--ll", myll, "--units", uf, "--out", of, "--threads", str(min(8, os.cpu_count() or 8)), "--time", str(budget),
                   "--steps", str(spec.get("steps", 400000)), "--samples", "40", "--maxviol", "60", "--dump", dump]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(SYMEX_FLOATS="1000" if tier == "quick" else "10000"))
            if r.returncode != 0 or not os.path.exists(of):
                notes.append("engine failed: " + r.stdout[-500:])
                print("engine failed:", r.stdout[-2000:])
                continue
            d = json.load(open(of))
            os.unlink(of)
            if d["crashed"]:
                notes.append("%d engine threads crashed: %s" % (d["crashed"], r.stdout[-500:]))
                print(notes[-1])
                tot["incomplete"] += d["crashed"]
                if d["crashed"] >= min(8, os.cpu_count() or 8):
                    continue
            funcs |= set(d["functions"])
            for k in ("queries", "solver_s", "unknown"):
                tot[k] += d[k]
            batch = []
            for (n, e, p), u in zip(units, d["units"]):
                for k in ("paths", "assume", "viol", "unsup", "steps", "forks", "incomplete"):
                    tot[k] += u[k]
                units_ev.append({"unit": n, "entry": e, "features": list(feats), "paths": u["paths"], "infeasible_or_assumed_away": u["assume"], "violating": u["viol"],
                                 "unsupported": u["unsup"], "symbolic_inputs": u["maxvars"], "longest_path_instructions": u["maxsteps"], "complete": u["incomplete"] == 0 and u["unsup"] == 0})
                want = spec.get("covers", {}).get(e, 0)
                if u["paths"] and n not in spec.get("nocover", ()) and want & ~u["covers"] and u["incomplete"] == 0:
                    units_ev[-1]["cover_points_missed"] = bin(want & ~u["covers"])
                for v in u["violations"]:
                    viols.append((n, e, p, v, mynat if len(groups) == 1 else os.path.join(work, "replay%d" % groups.index((feats, units)))))
                for v in u["unsupported"][:2]:
                    notes.append("unit %s not decided on one path: %s" % (n, v["msg"][:200]))
                for s in u["samples"]:
                    batch.append((e, s[0] or "-", s[1], p))
                    if len(samples) < 12 and s[0]:
                        samples.append({"unit": n, "entry": e, "model_input_hex": s[0], "outputs": s[2][:160]})
            if len(groups) > 1:
                shutil.copy(mynat, os.path.join(work, "replay%d" % groups.index((feats, units))))
            # validate the engine's semantics: models of explored paths give the same outputs natively
            step = max(1, len(batch) // 300)
            bf = os.path.join(work, "b")
            with open(bf, "w") as f:
                for e, h, hs, p in batch[::step]:
                    f.write("%s %s %s %s\n" % (e, h, hs, " ".join(map(str, p))))
            try:
                r = subprocess.run([mynat, "batch", bf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, preexec_fn=limits)
                m = re.search(r"^ok (\d+)$", r.stdout, re.M)
                validated += int(m.group(1)) if m else 0
                mm = [x for x in r.stdout.splitlines() if x.startswith("mismatch")]
                mism += len(mm)
                if mm or not m:
                    notes.append("native run differs from the model: %s %s" % (mm[:2], r.stderr[-200:] if not m else ""))
            except subprocess.TimeoutExpired:
                notes.append("native validation batch timed out")
            a, b = cross_check(dump, 6 if tier == "quick" else 40)
            agree += a
            dis += b
        # replay every counterexample against the real code
        kf = known_findings()
        reported, known, unconf = [], {}, []
        seen = {}
        viols.sort(key=lambda x: (len(x[3]["input"]), x[3]["input"]))
        for n, e, p, v, nb in viols:
            msg = re.sub(r" \[in .*\]$", "", v["msg"], flags=re.S).strip()
            where = v["msg"][len(msg):].strip()[:400]
            key = (v["kind"], msg)
            f = next((x for x in kf["findings"] if x["property"] == pid and x["kind"] == v["kind"] and x["message"] == msg), None)
            if f is None and len(reported) >= 8:
                break
            if seen.get(key, 0) >= 2:
                continue
            seen[key] = seen.get(key, 0) + 1
            out, detail = native_one(nb, e, v["input"], p, 20 if v["kind"] == "nontermination" else 10)
            if not confirms(v["kind"], msg, out, detail):
                unconf.append("%s %s input=%s native=%s %s" % (v["kind"], msg[:120], v["input"], out, detail[:100]))
                continue
            if f is not None:
                known[f["id"]] = f
                continue
            rp = os.path.join(rdir, "%s_%d.json" % (pid, len(reported)))
            json.dump({"property": pid, "kind": v["kind"], "message": msg, "where": where, "unit": n, "entry": e, "input_hex": v["input"],
                       "input_text": bytes.fromhex(v["input"]).decode("latin-1"), "params": p, "native": out, "detail": detail,
                       "replay_cmd": "replay one %s %s %s" % (e, v["input"] or "-", " ".join(map(str, p)))}, open(rp, "w"), indent=1)
            reported.append((rp, msg))
        for f in known.values():
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, f["id"], f["what"]))
        for u in unconf:
            notes.append("not confirmed natively (not reported): " + u)
        for x in notes[:20]:
            print("note:", x[:400])
        shown = sorted(f for f in funcs if "8yam_core" in f or "9yam_serde" in f)
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.get("level", "model_checking"),
              "coverage": {"states": tot["paths"] + tot["assume"] + tot["viol"], "transitions": tot["forks"], "traces_validated_against_impl": validated,
                           "model_mismatches": mism, "samples": samples,
                           "exhaustive": tot["incomplete"] == 0 and tot["unsup"] == 0 and tot["unknown"] == 0,
                           "paths_proved": tot["paths"], "paths_assumed_away": tot["assume"], "paths_violating": tot["viol"], "paths_unsupported": tot["unsup"],
                           "branches_left_unexplored": tot["incomplete"], "instructions_executed_symbolically": tot["steps"],
                           "solver_queries": tot["queries"], "solver_seconds": round(tot["solver_s"], 3), "solver_unknown": tot["unknown"],
                           "queries_rechecked_with_cvc5": {"agree": agree, "disagree": dis},
                           "functions_encoded": len(shown), "functions_encoded_list": shown[:400], "functions_encoded_total_incl_core_alloc": len(funcs),
                           "bounds": spec["bounds"], "units": units_ev, "notes": notes, "build_seconds": round(bt, 1),
                           "explanation": "states = symbolic paths decided (each covers every input satisfying its path condition); transitions = solver-decided forks"},
              "assumptions": specs.ASSUMPTIONS + spec.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
        json.dump(ev, open(evf, "w"), indent=1)
        print("%s %s: %d units, %d paths, %d queries (%.1f s), %d traces validated, build %.1f s, wall %.1f s%s" % (
            pid, tier, len(units_ev), tot["paths"], tot["queries"], tot["solver_s"], validated, bt, time.time() - t0,
            "" if ev["coverage"]["exhaustive"] else " (INCOMPLETE within the bounds)"))
        for rp, msg in reported:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("   ", msg[:300])
        return 1 if reported else 0 if units_ev else 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        # the tree does not build: nothing can be decided about it
        print("cannot build:", e)
        sys.exit(2)
