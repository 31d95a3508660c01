#!/usr/bin/env python3
"""Decide one property: mirror /repo's current sources, let the verifier discharge every obligation
of the property's contracts, replay counterexamples natively, write evidence.

  run.py <PROPERTY> [--keep]        VERIF_TIER=quick|thorough
Exit 0 held / 1 VIOLATION / 2 undecided (tool limit, lost anchor) - never an alarm.
"""
import json, os, re, shutil, signal, subprocess, sys, time

KIT = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(KIT)
sys.path.insert(0, KIT)
import mirror as M

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)


def say(*a):
    print(*a, flush=True)


def undecided(prop, why, detail=""):
    say(f"UNDECIDED property={prop} {why}")
    if detail:
        say(detail[-4000:])
    sys.exit(2)


def kani(work, names, timeout, extra=(), budget=800):
    """Run the named harnesses; returns (by-name results, raw output, compile_ok)."""
    out = os.path.join(work, "out.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = ["cargo", "kani", "--exact", "-j", "8", "--output-format=terse", "-Z", "unstable-options",
           "--export-json", out, "--no-assertion-reach-checks", "--harness-timeout", f"{timeout}s"]
    for n in names:
        cmd += ["--harness", n]
    cmd += list(extra)
    p = subprocess.Popen(cmd, cwd=work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        raw = p.communicate(timeout=budget)[0]
        late = False
    except subprocess.TimeoutExpired:
        late = True
    # solvers whose harness ran out of time are left behind by the driver: end the whole session
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if late:
        raw = p.communicate()[0] or ""
        return {}, raw + "\n[budget exhausted]", True, cmd
    if not os.path.exists(out):
        return {}, raw, "Checking harness" in raw, cmd
    d = json.load(open(out))
    res = {}
    for r in d["verification_results"]["results"]:
        res[r["harness_id"]] = r
    for c in d.get("cbmc", []):
        if c["harness_id"] in res:
            res[c["harness_id"]]["stats"] = c.get("cbmc_stats") or {}
            res[c["harness_id"]]["solver"] = (c.get("configuration") or {}).get("solver")
    return res, raw, True, cmd


TOOL_LIMIT = re.compile(r"^(MODEL|\"?MODEL)|unwinding assertion|recursion unwinding|is not currently supported|"
                        r"unsupported|undefined function|Only .* supported|concat! \(\"MODEL", re.I)


OBL = re.compile(r"^(OBLIGATION )?[A-Z]\d\d[.:]|^OBLIGATION ")


def desc(c):
    d = c["description"]
    if len(d) > 1 and d[0] == d[-1] == '"':
        d = d[1:-1]
    return d


def classify(r):
    """-> (n_obligations, n_discharged, failures, limits, bad_covers, named)"""
    fails, limits, covers, named = [], [], [], []
    n = ok = 0
    checks = r.get("checks") or []
    for c in checks:
        st = c["status"].lower()
        if c.get("category") == "cover":
            if st != "satisfied":
                covers.append(desc(c))
            continue
        n += 1
        d = desc(c)
        if OBL.match(d) and d not in named:
            named.append(d)
        if st in ("success", "unreachable"):
            ok += 1
        elif st == "failure":
            loc = c.get("location") or {}
            e = {"check": d, "function": c.get("function"), "file": loc.get("file"), "line": loc.get("line"),
                 "category": c.get("category")}
            if TOOL_LIMIT.search(d) or c.get("category") in ("unwind", "unsupported_construct", "recursion"):
                limits.append(e)
            else:
                fails.append(e)
        else:
            limits.append({"check": d, "status": st})
    if r.get("status") != "Success" and not fails and not limits and not covers:
        limits.append({"check": f"no result ({r.get('status')}; solver time limit)"})
    if not checks and not limits:
        limits.append({"check": "no obligations generated"})
    # a failed unwinding assertion leaves the others undetermined, real failures stay real
    return n, ok, fails, limits, covers, named


def playback(work, group, h, timeout):
    """Counterexample of harness h, replayed natively on the mirrored code. -> (reproduced, text)"""
    short = h.split("::")[-1]
    cmd = ["cargo", "kani", "--exact", "--harness", h, "--output-format=terse", "-Z", "concrete-playback",
           "-Z", "unstable-options", "--concrete-playback=print", "--harness-timeout", f"{timeout}s"]
    try:
        p = subprocess.run(cmd, cwd=work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        return False, "trace generation exceeded its time limit"
    tests = re.findall(r"```\n(.*?)```", p.stdout, re.S)
    if not tests:
        return False, "the verifier produced no concrete values"
    fail_tests = []
    for t in tests:
        head, sep, rest = t.partition("#[test]")
        if "cover" not in head[:60]:
            fail_tests.append(sep + rest)
    tests = fail_tests
    if not tests:
        return False, "the verifier produced no concrete values"
    path = h.split("::")[:-1]
    f = os.path.join(work, "src", path[-1] + ".rs")
    keep = open(f).read()
    rep = False
    text = ""
    try:
        body = "\n".join(tests[:6])
        open(f, "w").write(keep + "\n#[cfg(kani)]\nmod vp_playback { use super::*;\n" + body + "\n}\n")
        c2 = ["cargo", "kani", "playback", "-Z", "concrete-playback", "--", "::".join(path) + "::vp_playback", "--test-threads=1"]
        try:
            q = subprocess.run(c2, cwd=work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=200)
            text = q.stdout
            rep = bool(re.search(r"panicked at|SIGSEGV|SIGABRT|signal: ", text)) and "kani::assume" not in text
            if re.search(r"^error", text, re.M) and "test result" not in text and "panicked" not in text and "signal" not in text:
                rep = False
        except subprocess.TimeoutExpired:
            text = "native replay exceeded its time limit"
        text = "concrete values found by the verifier:\n" + body + "\n\nnative replay (" + " ".join(c2) + "):\n" + text[-6000:]
    finally:
        open(f, "w").write(keep)
    return rep, text


def main():
    prop = sys.argv[1]
    props = json.load(open(os.path.join(KIT, "props.json")))
    P = props[prop]
    groups = P["groups"]
    per_h = int(P.get("timeout", 300 if TIER == "quick" else 600))
    known = []
    kf = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == prop]
    tot = dict(n=0, ok=0)
    bounded = dict(n=0, ok=0)
    named, violations, limits, perh, cmds, files, kfound = [], [], [], [], [], [], []
    solver_s = 0.0
    for G in groups:
        group = G["group"]
        work = os.path.join(VERIF, ".work", prop + "-" + group)
        os.makedirs(work, exist_ok=True)
        try:
            files += [f for f in M.mirror(group, work) if f not in files]
        except (FileNotFoundError, LookupError) as e:
            undecided(prop, f"source file gone: {e}")
        hs = list(G["harnesses"]) + list(G.get("bounded", []))
        if TIER == "thorough":
            hs += G.get("thorough", []) + G.get("thorough_bounded", [])
        bset = set(G.get("bounded", []) + G.get("thorough_bounded", []))
        res, raw, compiled, cmd = kani(work, hs, per_h)
        cmds.append(" ".join(cmd))
        if not compiled:
            errs = "\n".join(l for l in raw.splitlines() if not l.startswith("warning"))
            undecided(prop, f"the mirrored sources of group {group} do not compile against the models", errs)
        for h in hs:
            r = res.get(h)
            if r is None:
                if re.search(r"no harnesses matched", raw):
                    undecided(prop, f"harness {h} missing", raw)
                r = {"status": "missing", "checks": []}
            n, ok, fails, lim, covers, nm = classify(r)
            fb = (G.get("fallback") or {}).get(h)
            if not fails and (lim or covers) and fb:
                r2, raw2, _, cmd2 = kani(work, [fb], per_h)
                cmds.append(" ".join(cmd2))
                if fb in r2:
                    say(f"note: {h} undecided ({(lim or covers)[0]}); bounded stand-in {fb}")
                    h, bset, r = fb, bset | {fb}, r2[fb]
                    n, ok, fails, lim, covers, nm = classify(r)
            tgt = bounded if h in bset else tot
            tgt["n"] += n
            tgt["ok"] += ok
            named += [f"{h}: {x}" for x in nm]
            st = r.get("stats") or {}
            solver_s += st.get("runtime_decision_procedure_s", 0) or 0
            perh.append({"harness": h, "bounded": h in bset, "obligations": n, "discharged": ok,
                         "solver": r.get("solver"), "solver_s": st.get("runtime_decision_procedure_s"),
                         "ms": r.get("duration_ms"), "status": r.get("status")})
            if fails:
                kn = [k for k in known if k["harness"] == h]
                left = [f for f in fails if not any(k["obligation"] in f["check"] for k in kn)]
                for k in kn:
                    if any(k["obligation"] in f["check"] for f in fails):
                        kfound.append(k)
                if left:
                    violations.append((group, work, h, left))
            elif lim:
                limits.append((h, lim))
            elif covers:
                limits.append((h, [{"check": "VACUOUS: not reachable: " + c} for c in covers]))
    for k in kfound:
        say(f"KNOWN-FINDING: property={prop} {k['what']}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": P["level"],
        "coverage": {
            "obligations": tot["n"], "discharged": tot["ok"],
            "bounded_obligations": bounded["n"], "bounded_discharged": bounded["ok"],
            "named_obligations": named,
            "functions_under_contract": P["functions"], "mirrored_sources": files,
            "checker_cmd": " && ".join(cmds),
            "back_end": "Kani 0.68 / CBMC 6.11, SAT/SMT back end per harness below",
            "solver_time_s": round(solver_s, 3), "harnesses": perh,
            "trusted_base": P.get("trusted", []) + COMMON,
        },
        "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(violations),
    }
    if P["level"] != "proof":
        ev["coverage"]["explanation"] = P.get("explanation", "bounded contract harnesses; see DESIGN.md")
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if violations:
        group, work, h, fails = violations[0]
        left = 820 - (time.time() - T0)
        rep, text = (False, "no time left for a replay")
        if left > 60:
            rep, text = playback(work, group, h, int(min(300, left - 40)))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}.txt")
        with open(path, "w") as f:
            f.write(f"property {prop}: {P['title']}\n\nfailed obligations:\n")
            for g2, w2, h2, fs in violations:
                for x in fs:
                    f.write(f"  [{h2}] {x['check']}\n      at {x['file']}:{x['line']} in {x['function']}\n")
            f.write("\n" + text + "\n")
        for g2, w2, h2, fs in violations:
            for x in fs[:6]:
                say(f"failed obligation [{h2}] {x['check']} at {x['file']}:{x['line']}")
        say(f"VIOLATION property={prop} replay={path}" + ("" if rep else " no-failing-input-found"))
        sys.exit(1)
    if limits:
        undecided(prop, "; ".join(f"{h}: {l[0].get('check')}" for h, l in limits[:4]))
    say(f"OK property={prop} obligations={tot['n']} discharged={tot['ok']} bounded={bounded['ok']}/{bounded['n']} "
        f"solver_s={solver_s:.1f} wall_s={time.time() - T0:.0f}")


COMMON = [
    "Kani 0.68 (rustc MIR -> goto), CBMC 6.11, the SAT/SMT back ends, rustc's standard library (verified as compiled code where reached)",
    "kit/mirror.py: textual mirror, std:: paths to the model std, #[cfg(test)] items dropped, print/log macros erased",
    "kit/vk and kit/shims: hand-written models (assumed contracts) of v8, tokio, libc, channels, locks, threads, maps",
]

if __name__ == "__main__":
    main()
