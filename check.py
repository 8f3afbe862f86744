#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current tree by symbolic execution.

Exit 0: the property held for every value within the bounds. Exit 1 with a line `VIOLATION property=.. replay=..`:
broken, and the solver's values reproduce it natively. Anything else: an error of the check.
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vlib import build, plan, text  # noqa: E402

JOBS = os.cpu_count() or 4


def parse_known(prop):
    """known_findings.txt: `finding: property=C.. entry=<name:a:b> kind=<assert|panic> id=<..> doc=<regex> | what`"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) entry=(\S+) kind=(\S+) id=(\S+) doc=/(.*)/ \| (.*)$", ln.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append(dict(entry=m.group(2), kind=m.group(3), id=m.group(4), doc=re.compile(m.group(5)), what=m.group(6)))
    return out


def native(lines, timeout):
    """runs cases on the real build; returns (status, obs, detail, doc) per case, 'hang' where it did not come back"""
    out = []
    rest = list(lines)
    while rest:
        try:
            p = subprocess.run([build.NATIVE], input="\n".join(rest) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
            got, ended = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            got, ended = (x.stdout or b"").decode(errors="replace"), None
        rs = [r.split("\t") for r in got.split("\n") if r.count("\t") == 3]
        out += [tuple(r) for r in rs]
        rest = rest[len(rs):]
        if rest and ended is None and len(lines) > 1:
            # the time ran out on the next case, perhaps not for itself
            out += native(rest[:1], timeout)
            rest = rest[1:]
        elif rest:
            # the process died or hung on the next case
            out.append(("hang" if ended is None else f"died", "", str(ended), ""))
            rest = rest[1:]
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        sys.exit("tier must be quick or thorough")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    times = build.build(hooks=prop == "C29")
    specs = plan.quick(prop) if tier == "quick" else plan.thorough(prop)
    limit = 600 if tier == "quick" else 7200
    out = os.path.join(build.WORK, f"{prop}.{tier}.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [build.ENGINE, build.ir_path(), "--jobs", str(JOBS), "--timeout", str(limit), "--samples", "2", "--out", out]
    if not parse_known(prop):
        # a minute after the first violation there is no need to go on
        cmd += ["--grace", "60"]
    for s in specs:
        cmd += ["--entry", s]
    te = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0 or not os.path.exists(out):
        print("\n".join(p.stdout.splitlines()[-20:]))
        print(f"ERROR: the executor ended with {p.returncode}")
        return 2
    te = time.time() - te
    r = json.load(open(out))
    es = r["entries"]

    # ---- replay: counterexamples and sample paths, on the real code
    known = parse_known(prop)
    cases, meta = [], []
    left = 200
    for e in es:
        a = (e["args"] + [0, 0])[:2]
        for v in e["violations"]:
            n = 6
            if v["kind"] == "open":
                n = min(3, left)
                left -= n
            for i in v["inputs"][:n]:
                cases.append(f"{e['entry']} {a[0]} {a[1]} {','.join(map(str, i))}")
                meta.append(("v", e, v, i))
    vcases = len(cases)
    for e in es:
        a = (e["args"] + [0, 0])[:2]
        for s in e["samples"]:
            cases.append(f"{e['entry']} {a[0]} {a[1]} {','.join(map(str, s['inputs']))}")
            meta.append(("s", e, s, s["inputs"]))
    res = native(cases[:vcases], 20) + native(cases[vcases:], 120)
    errors, found, knowns, unrep = [], [], [], []
    samples, validated = [], 0
    for (k, e, x, i), c, n in zip(meta, cases, res):
        st, obs, det, doc = n
        if k == "s":
            if st != "ok" or obs != x["obs"]:
                errors.append(f"executor and native run disagree on {c}: {st} {obs} {det}, expected ok {x['obs']}")
            else:
                validated += 1
                if len(samples) < 12 and doc not in [q["text"] for q in samples]:
                    samples.append({"scenario": f"{e['entry']}:{':'.join(map(str, e['args']))}", "inputs": i, "text": doc[:600]})
            continue
        hit = (x["kind"] == "assert" and st == "assert" and det == str(x["id"])) or (x["kind"] == "panic" and st in ("panic", "died")) or (x["kind"] == "steps" and st == "hang") \
            or (x["kind"] != "steps" and st in ("panic", "died", "assert"))
        if x["kind"] == "open":
            # a path the executor could not follow to its end: undecided, unless its model already breaks the property
            hit = st in ("panic", "died", "assert", "hang")
            if not hit:
                continue
        if not hit:
            unrep.append(f"{c}: solver {x['kind']} {x['id']}, native {st} {det}")
            continue
        validated += 1
        f = dict(property=prop, entry=e["entry"], args=e["args"], inputs=i, kind=st, id=det, text=doc, what=text.explain(st, det), paths=x["count"], case=c)
        for kf in known:
            if kf["entry"] == f"{e['entry']}:{':'.join(map(str, e['args']))}" and kf["kind"] == st and kf["id"] == det.split(" ")[0] and kf["doc"].search(doc):
                knowns.append(kf["what"])
                break
        else:
            found.append(f)
    for w in sorted(set(knowns)):
        print(f"KNOWN-FINDING: property={prop} {w}")

    # ---- completeness and vacuity
    inc = {}
    for e in es:
        for k, n in e["incomplete"].items():
            inc[k] = inc.get(k, 0) + n
    if inc:
        errors.append("not decided: " + ", ".join(f"{k} ({n} states)" for k, n in sorted(inc.items())))
    groups = {}
    for s, e in zip(specs, es):
        g, need = plan.need(s)
        got = groups.setdefault(g, [set(), set(need)])
        got[0].update(int(c) for c in e["covers"])
    for g, (got, need) in sorted(groups.items()):
        if not need <= got and not found:
            errors.append(f"vacuous: scenarios {g} never reached witness {sorted(need - got)}")
    paths = sum(e["paths"] for e in es)
    if paths == 0:
        errors.append("no path was explored")
    # a counterexample that does not reproduce means the encoding is wrong
    if unrep:
        errors += ["not reproduced natively: " + u for u in unrep[:5]]

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fns = text.functions(r["functions"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": paths, "transitions": sum(e["steps"] for e in es), "traces_validated_against_impl": validated, "samples": samples,
            "explanation": "states are the completed symbolic paths (each stands for every value of the symbolic variables that takes it), transitions the executed instructions of the compiler's intermediate representation",
            "scenarios": len(es), "assumed_away": sum(e["assumed"] for e in es), "forks": sum(e["forks"] for e in es), "symbolic_variables_max": max(e["max_vars"] for e in es),
            "assertions_on_paths": sum(e["asserts"] for e in es), "assertions_depending_on_symbols": sum(e["sym_asserts"] for e in es),
            "longest_path_instructions": max(e["max_steps"] for e in es), "solver": r["z3"], "solver_queries": r["queries"], "solver_s": round(r["solver_s"], 2),
            "decided_by_value_tables": r["table_decisions"], "audited_against_solver": r["audited_decisions"], "witnesses": {g: sorted(x[0]) for g, x in groups.items()},
            "functions_encoded": len(r["functions"]), "functions_encoded_in_repo": fns, "incomplete": inc,
            "bounds": text.BOUNDS.get(prop, "") + " Scenarios: " + ", ".join(text.ranges(specs)),
            "engine_wall_s": round(te, 1), "build_s": times,
        },
        "assumptions": text.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1), "violations": len(found),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(es)} scenarios, {paths} symbolic paths, {r['queries']} solver queries ({r['solver_s']:.1f} s), {validated} traces validated natively, engine {te:.1f} s, total {time.time() - t0:.1f} s")
    if found:
        rd = os.path.join(build.WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for f in found:
            key = (f["entry"], f["kind"], f["id"])
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            path = os.path.join(rd, f"{prop}-{len(seen)}.json")
            f["reproduce"] = f"echo '{f['case']}' | {build.NATIVE}"
            with open(path, "w") as h:
                json.dump(f, h, indent=1)
            print(f"  {f['what']} [{f['entry']}:{':'.join(map(str, f['args']))}] on: {f['text'][:300]}")
            print(f"VIOLATION property={prop} replay={path}")
        for x in errors[:5]:
            print("note: " + x)
        return 1
    for x in errors[:10]:
        print("ERROR: " + x)
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
