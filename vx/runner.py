"""Runs the jobs of one property, replays what they found, writes the evidence."""

from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing
import os
import select
import subprocess
import sys
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPLAY_PY = "/opt/venv/bin/python"
if not os.path.exists(REPLAY_PY):
    REPLAY_PY = sys.executable


class Replayer:
    """A concrete interpreter answering replay requests."""

    def __init__(self):
        self.start()

    def start(self):
        env = dict(os.environ)
        env["PYTHONPATH"] = f"{os.environ.get('VX_REPO', '/repo')}:{ROOT}:/opt/venv/lib/python3.12/site-packages"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen(
            [REPLAY_PY, "-m", "vx.concrete"],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
            env=env,
            cwd=str(ROOT),
        )

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            limit = req["timeout"] * len(req["seeds"]) + 15
            if not select.select([self.p.stdout], [], [], limit)[0]:
                # Stuck where the interpreter does not look at signals
                self.p.kill()
                self.p.wait()
                self.start()
                return {"result": "timeout", "msg": f"no result within {limit} s"}
            line = self.p.stdout.readline()
            return json.loads(line)
        except (OSError, ValueError) as e:
            return {"result": "error", "msg": f"replayer died: {e}"}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def request(res, a, timeout):
    return {
        "module": res["module"],
        "fn": res["fn"],
        "cfg": res["cfg"],
        "values": a["values"],
        "bg": a["bg"],
        "seeds": [1, 2, 3],
        "timeout": timeout,
    }


def run_job(args):
    job_args, replay_timeout = args
    from vx.job import Job

    job = Job(**job_args)
    try:
        res = job.run()
    except BaseException as e:  # noqa: BLE001
        import traceback

        return {"name": job.name, "crash": f"{type(e).__name__}: {e}", "trace": traceback.format_exc(limit=-8)}
    rep = Replayer()
    res["violations"], res["unreproduced"], res["mismatch"] = [], [], []
    res["validated"] = 0
    try:
        for c in res["candidates"]:
            if len(res["violations"]) >= 2:
                break
            r = rep.ask(request(res, c, replay_timeout))
            if r["result"] == "fail" or (r["result"] == "timeout" and job.terminates):
                res["violations"].append({**c, "concrete": r})
            else:
                res["unreproduced"].append({**c, "concrete": r})
                if r["result"] in ("error", "timeout"):
                    rep.close()
                    rep = Replayer()
        # What a caller uses is missing or fails: the harness itself cannot go on, in the ordinary interpreter either
        for c in res["suspects"]:
            r = rep.ask(request(res, c, replay_timeout))
            if r["result"] == "error" and r.get("exc") == c["exc"]:
                res["violations"].append({**c, "concrete": r})
        for wit in res["witnesses"]:
            r = rep.ask(request(res, wit, replay_timeout))
            if r["result"] == "pass":
                bad = {
                    k: (v, r["observed"].get(k))
                    for k, v in wit["observed"].items()
                    if v is not None and r["observed"].get(k) != v
                }
                if bad:
                    res["mismatch"].append({"what": "observed values differ", "diff": bad, "values": wit["values"]})
                else:
                    res["validated"] += 1
            elif r["result"] == "fail" or (r["result"] == "timeout" and job.terminates):
                res["violations"].append({"msg": r["msg"], **wit, "concrete": r})
            elif r["result"] != "assumption":
                res["mismatch"].append({"what": r["result"], "msg": r.get("msg"), "values": wit["values"]})
    finally:
        rep.close()
    res["witnesses"] = res["witnesses"][:2]
    return res


def load_known():
    out = {}
    p = ROOT / "known_findings.jsonl"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.strip():
                d = json.loads(line)
                out[d["id"]] = d
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VX_JOBS", "8")))
    ap.add_argument("--only", default=None, help="substring of job names")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    from checks import REGISTRY

    modname = REGISTRY[args.property]
    mod = importlib.import_module(f"checks.{modname}")
    spec = mod.PROPERTIES[args.property]
    t0 = time.monotonic()
    jobs = spec["jobs"](args.tier)
    if args.only:
        jobs = [j for j in jobs if args.only in j["name"]]
    replay_timeout = spec.get("replay_timeout", 15)
    for j in jobs:
        j.setdefault("module", f"checks.{modname}")
        j.setdefault("budget_s", 300 if args.tier == "quick" else 1500)
        if spec.get("terminates"):
            j.setdefault("terminates", True)
    ctx = multiprocessing.get_context("fork")
    # Largest first keeps the workers busy
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].pop("weight", 1))
    limit = t0 + float(os.environ.get("VX_WALL", "760" if args.tier == "quick" else "14000"))
    unfinished = []

    def run(todo):
        """Results of the jobs, up to the first violation or the wall limit."""
        with ctx.Pool(min(args.jobs, max(1, len(todo))), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(run_job, [(j, replay_timeout) for j in todo], chunksize=1)
            for _ in todo:
                try:
                    r = it.next(timeout=max(1.0, limit - time.monotonic()))
                except multiprocessing.TimeoutError:
                    break
                if args.v:
                    brief(r)
                yield r
                if r.get("violations") and not args.v:
                    # one reproduced counterexample decides the run
                    break
            pool.terminate()

    results = list(run([jobs[i] for i in order]))
    if not any(r.get("violations") for r in results):
        done = {r["name"] for r in results}
        unfinished = [j["name"] for j in jobs if j["name"] not in done]
        # Buffering can hide what a candidate shows: look again, with the buffers run as written
        doubt = {r["name"] for r in results if r.get("unreproduced")}
        again = [{**j, "raw": True, "max_candidates": 24} for j in jobs if j["name"] in doubt and not j.get("raw")]
        for r in run(again):
            if r.get("violations") or not ("crash" in r or r["unreproduced"] or r["incomplete"] or r["notes"]):
                results = [r if old["name"] == r["name"] else old for old in results]
    return report(args, spec, results, time.monotonic() - t0, unfinished)


def brief(r):
    if "crash" in r:
        print(f"  [{r['name']}] CRASH {r['crash']}\n{r['trace']}", flush=True)
        return
    s = r["stats"]
    print(
        f"  [{r['name']}] {r['wall_s']:.1f}s paths={s['paths']} cut={s['cut']} forks={s['forks']} q={s['queries']} "
        f"solver={s['solver_s']:.1f}s checks={s['checks']} unk={s['unknown']} nl={s['nonlinear']} "
        f"val={r['validated']} viol={len(r['violations'])} unrep={len(r['unreproduced'])} mism={len(r['mismatch'])} "
        f"reach={r['reached']} {r['incomplete'] or ''} {r['notes'] or ''} known={list(r['known_seen'])}",
        flush=True,
    )
    for e in r["errors"]:
        print(e)
    for k in ("violations", "unreproduced", "mismatch"):
        for v in r[k][:2]:
            print(f"    {k}: {json.dumps(v)[:700]}")


def report(args, spec, results, wall, unfinished=()):
    pid = args.property
    known = load_known()
    ev_dir = Path(os.environ.get("VX_EVIDENCE", ROOT / "evidence"))
    ev_dir.mkdir(exist_ok=True)
    tot = {}
    functions, reached, seen, notes, incomplete = set(), {}, {}, {}, []
    violations, unreproduced, mismatch, crashes, validated = [], [], [], [], 0
    samples = []
    for r in sorted(results, key=lambda r: r["name"]):
        if "crash" in r:
            crashes.append({"job": r["name"], "what": r["crash"], "trace": r["trace"]})
            continue
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_query_s" else tot.get(k, 0) + v
        functions.update(r["functions"])
        for k, v in r["reached"].items():
            reached[k] = reached.get(k, 0) + v
        for k, v in r["known_seen"].items():
            seen.setdefault(k, (r, v))
        for k, v in r["notes"].items():
            notes[f"{r['name']}: {k}"] = v
        incomplete.extend(f"{r['name']}: {i}" for i in r["incomplete"])
        violations.extend((r, v) for v in r["violations"])
        unreproduced.extend((r, v) for v in r["unreproduced"])
        mismatch.extend({"job": r["name"], **v} for v in r["mismatch"])
        validated += r["validated"]
        if r["witnesses"] and len(samples) < 4:
            w = r["witnesses"][0]
            samples.append({"job": r["name"], "values": dict(list(w["values"].items())[:24]), "observed": w["observed"]})
    incomplete.extend(f"{n}: not finished within the wall limit" for n in unfinished)
    missing = [x for x in spec.get("must_reach", ()) if not reached.get(x)]
    status = 0
    replay_path = None
    if violations:
        status = 1
        rdir = ev_dir / "replay"
        rdir.mkdir(exist_ok=True)
        r, v = violations[0]
        replay_path = rdir / f"{pid}.json"
        replay_path.write_text(
            json.dumps(
                {"property": pid, "job": r["name"], **request(r, v, 20), "message": v["msg"], "concrete": v["concrete"]},
                indent=1,
            )
        )
    elif crashes or (missing and not args.only and not unfinished):
        status = 2
    new_known = [k for k in seen if k not in known or known[k].get("status") == "fixed"]
    evidence = {
        "property": pid,
        "tier": args.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": tot.get("paths", 0) + tot.get("cut", 0),
            "transitions": tot.get("forks", 0) + tot.get("forced", 0),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "jobs": len(results),
            "symbolic_paths": tot.get("paths", 0),
            "assertion_queries": tot.get("checks", 0),
            "solver_queries": tot.get("queries", 0),
            "solver_time_s": round(tot.get("solver_s", 0.0), 3),
            "slowest_query_s": round(tot.get("max_query_s", 0.0), 3),
            "solver_unknown": tot.get("unknown", 0),
            "functions_encoded": sorted(functions),
            "bounds": spec["bounds"],
            "outside_bounds": spec["outside"],
            "reached": reached,
            "inconclusive": notes,
            "incomplete": incomplete,
            "unreproduced_candidates": len(unreproduced),
            "engine_mismatches": len(mismatch),
            "crashed_jobs": len(crashes),
            "known_findings_seen": sorted(seen),
            "per_job": [
                {
                    "name": r["name"],
                    "paths": r["stats"]["paths"],
                    "queries": r["stats"]["queries"],
                    "solver_s": round(r["stats"]["solver_s"], 2),
                    "wall_s": round(r["wall_s"], 2),
                }
                for r in sorted(results, key=lambda r: r["name"])
                if "crash" not in r
            ],
        },
        "wall_s": round(wall, 2),
        "assumptions": spec.get("assumptions", []),
        "violations": len(violations),
    }
    (ev_dir / f"{pid}.json").write_text(json.dumps(evidence, indent=1))
    for k in sorted(seen):
        if k in known and known[k].get("status") != "fixed":
            print(f"KNOWN-FINDING: property={pid} {k}: {known[k]['what']}")
    for k in new_known:
        # a deviation encoded in a check but not listed as an open finding is a violation
        r, v = seen[k]
        rdir = ev_dir / "replay"
        rdir.mkdir(exist_ok=True)
        replay_path = rdir / f"{pid}.json"
        replay_path.write_text(json.dumps({"property": pid, "job": r["name"], **request(r, v, 20), "message": k}, indent=1))
        status = 1
    for r, v in unreproduced[:3]:
        print(f"INCONCLUSIVE property={pid} job={r['name']}: {v['msg']} did not reproduce ({v['concrete'].get('result')})")
    for m in mismatch[:3]:
        print(f"INCONCLUSIVE property={pid} job={m['job']}: encoding and implementation disagree: {json.dumps(m)[:300]}")
    for c in crashes[:3]:
        print(f"ERROR property={pid} job={c['job']}: {c['what']}\n{c['trace']}")
    if missing and not args.only and not violations:
        print(f"ERROR property={pid}: vacuous, never reached: {missing}")
    if violations:
        for r, v in violations[:3]:
            print(f"  job {r['name']}: {v['msg']} | concrete: {v['concrete'].get('msg')}")
    if status == 1:
        print(f"VIOLATION property={pid} replay={replay_path}")
    print(
        f"{pid} {args.tier}: jobs={len(results)} paths={tot.get('paths', 0)} checks={tot.get('checks', 0)} "
        f"queries={tot.get('queries', 0)} solver={tot.get('solver_s', 0):.1f}s validated={validated} "
        f"inconclusive={sum(notes.values())} incomplete={len(incomplete)} wall={wall:.1f}s exit={status}"
    )
    return status
