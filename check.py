#!/usr/bin/env python3
"""Decides one property: runs the verifier on the contracts the property rests
on, over /repo's current source, and reports the obligations that fail."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOMEMLIMIT="6GiB")

TRUSTED = [
    "the condition generator in /verif/engine (symbolic execution of go/ssa built from /repo's source on every run)",
    "go/parser, go/types and golang.org/x/tools/go/ssa: the SSA form means what the compiler compiles",
    "z3 (z3-new) and cvc5: an unsat answer is right",
    "models of bufio.Writer (ghost: bytes accepted, first error, bytes flushed), utf8.DecodeRuneInString, range over strings, strings.Index*/HasPrefix/ToLower/Join, strconv.Format*, fmt.Errorf (non-nil error), runtime.Caller, x/text encoding wrappers",
]
ASSUME = [
    "machine integers are mathematical integers (no overflow of counters)",
    "partial correctness: termination is not proved",
    "parameters of distinct pointer types do not alias; the slices handed to the package are not changed by others during a call",
    "values of interface types reaching the writer are the package's own node values (value types), not nil",
    "an Elem handed in by the user carries no internal namespace bookkeeping",
    "a custom Indenter does not call back into the writer; it may write, which the contracts of other properties do not count as output",
]


def sh(cmd, timeout, cwd=HERE, mem=None):
    pre = ""
    if mem:
        pre = "ulimit -v %d; " % mem
    p = subprocess.Popen(["bash", "-c", pre + "exec " + " ".join("'%s'" % c for c in cmd)], cwd=cwd, env=ENV,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -9, out.decode("utf-8", "replace")


def unescape(s):
    s = s.strip()
    if len(s) >= 2 and s[0] == '"' and s[-1] == '"':
        s = s[1:-1].replace('""', '"')
    else:
        return None
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}|\\x([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1) or m.group(2), 16)), s)


def goquote(s):
    """the solver's characters are bytes"""
    out = '"'
    for c in s:
        o = ord(c)
        if o > 255:
            return None
        out += "\\x%02x" % o
    return out + '"'


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = json.load(open(os.path.join(HERE, "props.json")))[prop]
    for d in ("bin", "evidence", "replays"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    eng = os.path.join(HERE, "bin", "eng")
    newest = max(os.path.getmtime(os.path.join(HERE, "engine", f)) for f in os.listdir(os.path.join(HERE, "engine")))
    if not os.path.exists(eng) or os.path.getmtime(eng) < newest:
        rc, out = sh(["go", "build", "-o", eng, "."], 600, cwd=os.path.join(HERE, "engine"))
        if rc != 0:
            print(out)
            sys.exit(2)
    tmp = tempfile.mkdtemp(prefix="check-%s-" % prop)
    try:
        run(prop, tier, seed, t0, cfg, eng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, t0, cfg, eng, tmp):
    thorough = tier == "thorough"
    rep = os.path.join(tmp, "report.json")
    limit = "400s" if thorough else "200s"
    cmd = [eng, "-dir", REPO, "-contracts", os.path.join(HERE, "contracts"), "-prop", prop, "-json", rep, "-limit", limit,
           "-deadline", "600s" if thorough else "420s"]
    rc, out = sh(cmd, 700, mem=16000000)
    reports, engine_note = [], ""
    if rc == 0 and os.path.exists(rep):
        r = json.load(open(rep))
        reports = r["Reports"] or []
        dropped = r.get("Dropped") or []
    else:
        dropped = []
        engine_note = "the verifier gave no answer: " + out[-600:]
        # does the package still build?
        rc2, out2 = sh(["go", "build", "./..."], 120, cwd=REPO)
        if rc2 != 0:
            print(out2)
            print("the package does not build")
            sys.exit(2)

    direct, cone, undecided = [], [], []
    hints = []
    obl = disch = vcs = 0
    backs = {"z3": 0, "cvc5": 0}
    queries = solver_ms = 0
    funcs, inlined, trusted, theorems = [], set(), set(), []
    for r in reports:
        funcs.append("%s: %s" % (r["Job"], r["Status"]))
        queries += r["Queries"]
        solver_ms += r["SolverMS"]
        backs["z3"] += r["Z3"]
        backs["cvc5"] += r["CVC5"]
        inlined.update(r.get("Inlined") or [])
        trusted.update(r.get("Trusted") or [])
        for o in r.get("Obls") or []:
            obl += 1
            vcs += o["VCs"]
            name = r["Job"] + " / " + o["Name"]
            mine = prop in (o.get("Tags") or [])
            if o["Failed"] == 0 and r["Status"] in ("proved", "failed"):
                disch += 1
                if mine:
                    theorems.append(name)
            elif o["Failed"] > 0:
                (direct if mine else cone).append((name, o))
                for k, v in (o.get("Model") or {}).items():
                    s = unescape(v)
                    if s is not None:
                        q = goquote(s)
                        if q and q not in hints:
                            hints.append(q)
        if r["Status"] not in ("proved", "failed"):
            undecided.append("%s: %s %s" % (r["Job"], r["Status"], r.get("Reason", "")))
    if not reports:
        undecided.append(engine_note or "no obligations were generated")

    # failing obligations: look for an input that shows it on the real code
    result = None
    need = bool(direct or cone or undecided or cfg.get("bounded"))
    known = cfg.get("known", [])
    rbin = os.path.join(tmp, "replay")
    if need or known:
        rdir = os.path.join(tmp, "replaysrc")
        shutil.copytree(os.path.join(HERE, "replay"), rdir)
        rc, o = sh(["go", "build", "-o", rbin, "."], 200, cwd=rdir)
        if rc != 0:
            print(o)
            print("the replay harness does not build against the package")
            if not direct:
                sys.exit(2)
            need = False
    if need:
        hf = os.path.join(tmp, "hints.json")
        json.dump(hints, open(hf, "w"))
        rj = os.path.join(tmp, "search.json")
        budget = 4
        if direct or cone or undecided:
            budget = 60 if thorough else 30
        elif thorough:
            budget = 60
        sh([rbin, "-prop", prop, "-seed", str(seed), "-budget", "%ds" % budget, "-hints", hf, "-out", rj, "-src", REPO], budget + 240)
        if os.path.exists(rj):
            result = json.load(open(rj))
    violations = 0
    lines = []
    replay = os.path.join(HERE, "replays", "%s.json" % prop)
    info = {"property": prop,
            "failed_obligations": [{"obligation": n, "of_this_property": n in [d[0] for d in direct], "verifier": o.get("Detail", ""), "model": o.get("Model")} for n, o in direct + cone],
            "undecided": undecided}
    if result and result.get("Violation"):
        violations = 1
        v = result["Violation"]
        info["Violation"] = v
        info["how_to_replay"] = "cd /verif/replay && go run . -run " + replay
        json.dump(info, open(replay, "w"), indent=1)
        for n, o in direct + cone:
            print("obligation not discharged: %s" % n)
        print("%s; expected %s; observed %s" % (v["What"], v["Expected"], v["Observed"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, replay))
    elif direct:
        violations = 1
        json.dump(info, open(replay, "w"), indent=1)
        for n, o in direct:
            print("obligation not discharged: %s: %s" % (n, (o.get("Detail") or "")[:300]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
    for k in known:
        rc, o = sh([rbin, "-known", k["case"]], 60)
        if rc == 1:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for u in undecided:
        print("undecided (bounded search only, not counted as proved): " + u)
    for n, o in cone:
        if not violations:
            print("not discharged, outside this property (bounded search found no violation of it): " + n)

    bounded = list(cfg.get("bounded", []))
    if undecided or cone:
        bounded += ["this run: " + u for u in undecided] + ["this run: " + n for n, _ in cone]
    cov = {
        "obligations": obl + len(undecided), "discharged": disch, "verification_conditions": vcs,
        "checker_cmd": "bin/eng -dir /repo -contracts contracts -prop %s" % prop,
        "trusted_base": TRUSTED + ["trusted contract: " + t for t in sorted(trusted) if t.startswith("trusted:")],
        "functions_under_contract": funcs, "bodies_executed_in_place": sorted(inlined),
        "contracts_of_internal_helpers_dropped": dropped,
        "solver_queries": queries, "solver_ms": solver_ms, "by_backend": backs,
        "theorems": theorems, "bounded_parts": bounded,
        "samples": theorems[:5],
    }
    if result:
        cov["bounded_search"] = {"cases": result["Cases"], "distinct": result["Distinct"], "seconds": result["Seconds"],
                                 "exhaustive_over": result.get("Exhaustive") or [], "samples": result.get("Samples") or []}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "coverage": cov,
          "assumptions": ASSUME + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d of %d obligations discharged over %d functions, %d solver queries, %.1f s" % (prop, disch, cov["obligations"], len(reports), queries, time.time() - t0))
    for l in lines:
        print(l)
    sys.exit(1 if violations else 0)


main()
