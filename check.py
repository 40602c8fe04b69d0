#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Decides one property on the current tree of /repo:
  1. deductive part (pyvc/): the contracts of the property are verified against the real code of /repo/src, function by
     function; every obligation is listed in the evidence;
  2. contract oracles (oracle/): the postcondition of the property evaluated on the real code for generated inputs.  They
     are the source of concrete failing inputs (replay of a failed obligation) and the bounded stand-in for what the
     verifier does not reach.  They are never counted as proved.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line otherwise.
"""
import argparse, json, os, subprocess, sys, time, hashlib, shutil, signal, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"
SRC = "/repo/src"
PARTS = {"C01": 1, "C02": 1, "C03": 2, "C04": 1, "C05": 2, "C06": 1, "C07": 4, "C08": 1, "C09": 1, "C10": 3, "C11": 4, "C12": 3,
         "C13": 7, "C14": 7, "C15": 7, "C16": 7, "C17": 1, "C18": 1}
TITLES = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line); TITLES[d["id"]] = d


def sh_env(seed, tier, part=None, hashseed=None):
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
           "HOME": os.environ.get("HOME", "/root"), "VERIF_SEED": str(seed), "VERIF_TIER": tier,
           "PYTHONHASHSEED": str(hashseed if hashseed is not None else seed % 4294967295)}
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): env[v] = "1"
    if part: env["ORACLE_PART"] = part
    return env


class Jobs:
    """subprocesses run side by side, at most `width` at a time, each in its own process group and under a time limit"""
    def __init__(self, width, deadline):
        self.width, self.deadline = width, deadline
        self.todo, self.running, self.done = [], [], {}

    def add(self, name, cmd, env, out, limit): self.todo.append((name, cmd, env, out, limit))

    def run(self):
        while self.todo or self.running:
            while self.todo and len(self.running) < self.width:
                name, cmd, env, out, limit = self.todo.pop(0)
                log = open(out + ".log", "wb")
                p = subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=os.path.dirname(out), start_new_session=True)
                self.running.append((name, p, out, time.time() + limit))
            time.sleep(.05)
            for r in list(self.running):
                name, p, out, end = r
                if p.poll() is None:
                    if time.time() > min(end, self.deadline):
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except ProcessLookupError: pass
                        p.wait(); self.done[name] = (out, "timeout"); self.running.remove(r)
                else:
                    self.done[name] = (out, p.returncode); self.running.remove(r)
        return self.done


def known_findings(prop):
    """{key: text}: `finding: property=<id> <group>/<what fails>`"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line + " ":
                out.append(line.split(f"property={prop}", 1)[1].strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-oracle", action="store_true"); ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    replay_dir = os.path.join(HERE, "replay"); os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        return decide(prop, tier, seed, t0, scratch, replay_dir, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, t0, scratch, replay_dir, a):
    quick = tier == "quick"
    limit = 700 if quick else 6 * 3600
    jobs = Jobs(8, t0 + limit)
    contract = os.path.join(HERE, "pyvc", "contracts", prop.lower() + ".py")
    has_proof = os.path.exists(contract) and not a.no_proof
    if has_proof:
        jobs.add("proof", [VT, "-W", "ignore", os.path.join(HERE, "pyvc", "run.py"), prop, "--tier", tier, "--out", os.path.join(scratch, "proof.json")],
                 sh_env(seed, tier, hashseed=0), os.path.join(scratch, "proof.json"), 500 if quick else 3000)
    oracle = os.path.join(HERE, "oracle", prop.lower() + ".py")
    n = PARTS[prop] if quick else 7
    if not open(oracle).read().count("ORACLE_PART"): n = 1 if quick else 4
    split = "ORACLE_PART" in open(oracle).read()
    budget = 240 if quick else 4500
    confs = {}
    if not a.no_oracle:
        for i in range(n):
            name = f"oracle{i}"
            out = os.path.join(scratch, name + ".json")
            part = f"{i}/{n}" if split and n > 1 else None
            s = seed if split else seed + 1000 * i
            env = sh_env(s, tier, part, hashseed=(s * 7919 + i * 31) % 4294967295)
            confs[name] = (env, s)
            jobs.add(name, [VENV, "-W", "ignore", oracle, "--seed", str(s), "--tier", tier, "--budget", str(budget), "--out", out], env, out, limit)
    done = jobs.run()

    # ---------------------------------------------------------------- oracles
    agg = {"evaluations": 0, "distinct_nontrivial": 0, "checks": 0, "skipped": 0, "groups": {}, "samples": []}
    failures, notes, errors = [], [], []
    for name, (out, rc) in sorted(done.items()):
        if name == "proof": continue
        if not os.path.exists(out):
            log = open(out + ".log", errors="replace").read()[-1500:] if os.path.exists(out + ".log") else ""
            (notes if rc == "timeout" else errors).append(f"{name}: no result ({rc}) {log}")
            continue
        r = json.load(open(out))
        for k in ("evaluations", "distinct_nontrivial", "checks", "skipped"): agg[k] += r[k]
        for g, c in r["groups"].items(): agg["groups"][g] = agg["groups"].get(g, 0) + c
        agg["samples"] += r["samples"][:12 - len(agg["samples"])]
        if r.get("truncated"): notes.append(f"{name}: stopped by its time budget after {r['evaluations']} cases")
        for f in r["failures"]: failures.append((name, f))

    # a case without answer is run again, alone, before it counts
    kept = []
    for name, f in failures:
        if f["what"].startswith("no answer within"):
            env, s = confs[name]
            out = os.path.join(scratch, "again.json")
            if os.path.exists(out): os.remove(out)
            try:
                subprocess.run([VENV, "-W", "ignore", oracle, "--seed", str(s), "--tier", tier, "--case", f["group"], f["key"], "--out", out],
                               env=env, timeout=300, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=scratch)
            except subprocess.TimeoutExpired: pass
            if os.path.exists(out):
                r = json.load(open(out))
                if not r["failures"]: notes.append(f"{f['group']}/{f['key']}: no answer in time at first, held when run alone"); continue
                f = r["failures"][0]
        kept.append((name, f))

    # ---------------------------------------------------------------- proof
    proof = None
    if has_proof:
        out, rc = done["proof"]
        if os.path.exists(out):
            proof = json.load(open(out))
        else:
            log = open(out + ".log", errors="replace").read()[-3000:] if os.path.exists(out + ".log") else ""
            notes.append(f"the deductive part gave no result ({rc}): {log}")

    known = known_findings(prop)
    violations, findings = [], []
    for name, f in kept:
        ident = f"{f['group']}: {f['what']}"
        hit = [k for k in known if k and k in ident]
        if hit: findings.append((hit[0], f)); continue
        env, s = confs[name]
        rp = os.path.join(replay_dir, f"{prop}-{f['group']}-{f['key']}.json".replace("/", "_"))
        json.dump({"property": prop, "title": TITLES[prop]["title"], "what": f["what"], "group": f["group"], "case": f["key"], "seed": s,
                   "environment": {k: env[k] for k in ("PYTHONHASHSEED", "ORACLE_PART") if k in env}, "input": f["data"],
                   "replay": f"PYTHONHASHSEED={env['PYTHONHASHSEED']} {VENV} -W ignore {oracle} --seed {s} --tier {tier} --case {f['group']} {f['key']}",
                   "failed_obligations": [o for o in (proof or {}).get("obligations", []) if o["status"] != "discharged"][:20]}, open(rp, "w"), indent=1)
        violations.append((rp, f"{ident}", False))
    proof_fail = []
    if proof:
        for o in proof["obligations"]:
            if o["status"] == "refuted":
                ident = f"obligation {o['name']}"
                if any(k and k in ident for k in known): findings.append((ident, o)); continue
                proof_fail.append(o)
    if proof_fail and not violations:
        rp = os.path.join(replay_dir, f"{prop}-obligations.json")
        json.dump({"property": prop, "title": TITLES[prop]["title"], "failed_obligations": proof_fail,
                   "note": "these obligations hold on the unchanged tree and are refuted on this one; no failing input of the real code was found"},
                  open(rp, "w"), indent=1)
        violations.append((rp, f"obligation {proof_fail[0]['name']} is refuted: {proof_fail[0].get('detail', '')[:300]}", True))

    # ---------------------------------------------------------------- evidence
    wall = time.time() - t0
    cov, level = {}, MANIFEST_LEVEL(prop)
    assumptions = []
    if proof:
        obl = proof["obligations"]
        by = {}
        for o in obl: by.setdefault(o.get("backend", "?"), []).append(o)
        cov.update({
            "obligations": len(obl), "discharged": sum(o["status"] == "discharged" for o in obl),
            "not_discharged": [{k: o.get(k) for k in ("name", "status", "detail")} for o in obl if o["status"] != "discharged"][:40],
            "by_backend": {k: len(v) for k, v in by.items()},
            "solver_s": round(sum(o.get("time", 0) for o in obl), 3),
            "functions_under_contract": proof.get("functions", []),
            "vacuity_checks": proof.get("vacuity", {}),
            "paths": proof.get("paths", 0),
            "checker_cmd": f"{VT} {HERE}/pyvc/run.py {prop}",
            "trusted_base": proof.get("trusted", []),
            "undecided": proof.get("undecided", []),
            "obligation_names": [o["name"] for o in obl][:400],
        })
        assumptions += proof.get("assumptions", [])
    else:
        cov.update({"obligations": 0, "discharged": 0, "checker_cmd": "", "trusted_base": []})
        if has_proof: notes.append("undecided by the deductive part on this tree: bounded stand-in only")
    cov.update({"evaluations": agg["evaluations"], "distinct_nontrivial": agg["distinct_nontrivial"],
                "rule": "bounded stand-in and replay source (never counted as proved): the postcondition of the property evaluated on the real "
                        "code for generated inputs; a case is non-trivial when its generated input is inside the precondition, distinct by the text of the input",
                "postconditions_evaluated": agg["checks"], "skipped": agg["skipped"], "cases_by_group": agg["groups"], "samples": agg["samples"],
                "notes": notes, "errors": errors, "explanation": "deductive obligations on the real code (obligations/discharged), plus the concrete contract oracle"})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(wall, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    for k, f in findings: print(f"KNOWN-FINDING: property={prop} {k}")
    if errors and not violations:
        for e in errors: print("ERROR", e)
        return 2
    if violations:
        for rp, what, nf in violations[:5]:
            print(f"{prop}: {what[:400]}")
            print(f"VIOLATION property={prop} replay={rp}" + (" no-failing-input-found" if nf else ""))
        return 1
    o = f"{cov['discharged']}/{cov['obligations']} obligations, " if proof else ""
    print(f"{prop} held: {o}{agg['evaluations']} concrete cases ({agg['checks']} postconditions), {wall:.1f} s" + (f"; notes: {notes}" if notes else ""))
    return 0


def MANIFEST_LEVEL(prop):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == prop: return c["level"]
    except Exception: pass
    return "other"


if __name__ == "__main__":
    sys.exit(main())
