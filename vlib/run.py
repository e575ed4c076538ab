"""Decide one property: explore all its harnesses symbolically, replay every
counterexample on the unpatched code, write the evidence file, set the exit code.

usage: python -m vlib.run C01 [--tier quick|thorough] [--only HARNESS]
exit: 0 holds on everything explored, 1 violation (line printed), 2 no answer

A path whose assertion the encoding could not decide (an operation it has no model for, a
spurious counterexample that the real code passes) is reported as UNDECIDED on stdout and
in the evidence; if every promised location was still reached and at least half of the
assertions were decided, the answer stands for what was explored.
"""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.jsonl")


class Harness:
    """One encoding.

    fn(ctx, **params); params: list of dicts per tier; reach: labels that must be
    reached at least once over all parameters (vacuity witness)."""

    def __init__(
        self, fn, name=None, quick=({},), thorough=None, opts=None, topts=None,
        reach=("done",), functions=(), bounds="", stubs=(), patch=True, validate=3,
    ):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = list(quick)
        self.thorough = list(thorough) if thorough is not None else list(quick)
        self.opts = dict(opts or {})
        self.topts = dict(topts or {})
        self.reach = tuple(reach)
        self.functions = tuple(functions)
        self.bounds = bounds
        self.stubs = tuple(stubs)
        self.patch = patch
        self.validate = validate


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def _get(prop, name):
    for h in load(prop).HARNESSES:
        if h.name == name:
            return h
    raise KeyError(name)


# ---------------------------------------------------------------------------
# symbolic side (worker process)
# ---------------------------------------------------------------------------


def _task(args):
    prop, hname, params, opts = args
    try:
        from . import engine, shim

        mod = load(prop)
        h = _get(prop, hname)
        if h.patch:
            shim.install(getattr(mod, "PATCH_EXTRA", ()))
        stats, cands, problems = engine.explore(h.fn, params, opts)
        samples = stats.__dict__.pop("models", [])
        return dict(
            harness=hname, params=params, stats=stats.as_dict(),
            cands=[c.__dict__ for c in cands], problems=problems, models=samples,
        )
    except BaseException as e:  # noqa: BLE001 - reported as "no answer"
        return dict(
            harness=hname, params=params, stats=None, cands=[],
            problems=[f"engine: {e!r}\n{traceback.format_exc(limit=-5)}"], models=[],
        )


def _worker(conn, journal):
    os.environ["VERIF_JOURNAL"] = journal
    while True:
        task = conn.recv()
        if task is None:
            return
        conn.send(_task(task))


def _run_tasks(tasks, jobs):
    """Run tasks in worker processes; a worker that dies (the code under test crashed
    the interpreter) or overruns its budget costs only its own task."""
    from multiprocessing.connection import wait

    ctxm = mp.get_context("spawn")
    tmp = os.environ.get("VERIF_SCRATCH") or "/tmp"
    todo = list(tasks)
    todo.reverse()
    live = {}
    serial = [0]

    def start():
        a, b = ctxm.Pipe()
        serial[0] += 1
        j = os.path.join(tmp, f"journal.{os.getpid()}.{serial[0]}")
        p = ctxm.Process(target=_worker, args=(b, j), daemon=True)
        p.start()
        b.close()
        return [p, a, j, None, 0.0, 0]

    def give(w):
        task = todo.pop()
        w[3], w[4] = task, time.time()
        w[5] += 1
        w[1].send(task)

    def crashed(w, why):
        vals = {}
        try:
            with open(w[2]) as f:
                for line in f:
                    k, v = line.rstrip("\n").split("=", 1)
                    if k == "*":
                        vals = {}
                    else:
                        vals[k] = int(v)
        except OSError:
            pass
        t = w[3]
        return dict(
            harness=t[1], params=t[2], stats=None, problems=[], models=[],
            cands=[dict(label=why, kind=why, values=[vals], decisions=[], detail=why)],
        )

    try:
        while todo or live:
            while todo and len(live) < jobs:
                w = start()
                live[w[1]] = w
                give(w)
            for conn in wait(list(live), timeout=5):
                w = live[conn]
                try:
                    r = conn.recv()
                except (EOFError, ConnectionError):
                    w[0].join()
                    live.pop(conn)
                    yield crashed(w, "crash")
                    continue
                yield r
                if todo and w[5] < 12:
                    give(w)
                else:
                    try:
                        conn.send(None)
                    except OSError:
                        pass
                    live.pop(conn)
            for conn, w in list(live.items()):
                o = w[3][3]
                late = min(w[4] + o.get("time_s", 600), o.get("deadline", 1e18)) + 120
                if time.time() > late:
                    w[0].kill()
                    live.pop(conn)
                    yield crashed(w, "hang")
    finally:
        for w in live.values():
            w[0].kill()


# ---------------------------------------------------------------------------
# concrete side (fresh process, unpatched)
# ---------------------------------------------------------------------------


def _concrete(fn, params, values, rng):
    from . import engine

    ctx = engine.ConcreteCtx(values, rng)
    try:
        fn(ctx, **params)
    except engine.Violation as v:
        return "violation", v.label, v.detail, ctx.used
    except (engine.AssumptionFailed, engine.StopPath):
        return "skip", "", "", ctx.used
    except Exception as e:  # noqa: BLE001 - the code under test raised
        if _own_limit(e):
            return "limit", "", f"{type(e).__name__}: {e}", ctx.used
        return (
            "violation",
            "exception",
            f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4),
            ctx.used,
        )
    return "ok", "", "", ctx.used


def _ours(module):
    m = sys.modules.get(module or "")
    f = os.path.abspath(getattr(m, "__file__", None) or "/")
    return f.startswith((os.path.join(ROOT, "vlib") + "/", os.path.join(ROOT, "checks") + "/"))


def _own_limit(e):
    """A stand-in of a harness lacks something of what it stands in for: nothing is
    known about the code then."""
    if isinstance(e, AttributeError) and e.name is not None:
        o = e.obj
        return _ours(getattr(o if isinstance(o, type) else type(o), "__module__", None))
    if isinstance(e, TypeError):
        m = re.match(
            r"([\w.<>]+)\(\) (got an unexpected keyword|got multiple values|missing \d+ required|"
            r"takes \d+ positional|takes from)", str(e))
        if m:
            top, *rest = m.group(1).split(".")
            for mod in list(sys.modules.values()):
                o = vars(mod).get(top) if _ours(getattr(mod, "__name__", None)) else None
                if o is not None and _ours(getattr(o, "__module__", None)) and all(
                    k == "<locals>" or hasattr(o, k) for k in rest[:1]
                ):
                    return True
    return False


def replay_main(path):
    """Subprocess entry: try the candidate assignments of a replay file."""
    with open(path) as f:
        job = json.load(f)
    out = {"reproduced": False, "tried": 0, "passed": 0, "skipped": 0}
    if "jobs" in job:
        rng = random.Random(job.get("seed", 1))
        for k, j in enumerate(job["jobs"]):
            h = _get(job["property"], j["harness"])
            for values in j["values"]:
                print("REPLAY-JOB " + json.dumps(k))
                print("REPLAY-TRY " + json.dumps(values), flush=True)
                r, label, detail, used = _concrete(h.fn, j["params"], values, rng)
                out["tried"] += 1
                out["passed"] += r == "ok"
                out["skipped"] += r in ("skip", "limit")
                if r == "violation":
                    out.update(
                        reproduced=True, label=label, detail=detail, values=used, job=k
                    )
                    print("REPLAY-RESULT " + json.dumps(out))
                    return 1
        print("REPLAY-RESULT " + json.dumps(out))
        return 0
    h = _get(job["property"], job["harness"])
    tries = [dict(v) for v in job["values"]]
    tries += [{n: x for n, x in v.items() if n != "@uf"} for v in tries if "@uf" in v]
    if job.get("found") is not None:
        tries.insert(0, job["found"])
    rng = random.Random(job.get("seed", 1))
    # keep the discrete choices of the counterexample, vary the reals around it
    if job.get("vary", 0):
        for base in list(job["values"]) or [{}]:
            for k in range(job["vary"]):
                v = {}
                for n, x in base.items():
                    if n == "@uf":
                        continue
                    if isinstance(x, bool) or isinstance(x, int):
                        v[n] = x
                    elif k % 3 == 0:
                        v[n] = x + rng.uniform(-0.25, 0.25) * max(abs(x), 0.1)
                    elif k % 3 == 1 and rng.random() < 0.5:
                        v[n] = x
                # missing names are drawn at random by the context
                tries.append(v)
    for values in tries:
        print("REPLAY-TRY " + json.dumps(values), flush=True)
        r, label, detail, used = _concrete(h.fn, job["params"], values, rng)
        out["tried"] += 1
        if r == "ok":
            out["passed"] += 1
        elif r in ("skip", "limit"):
            out["skipped"] += 1
            if r == "limit":
                out["limit"] = detail
        if r == "violation":
            out.update(reproduced=True, label=label, detail=detail, values=used)
            break
    print("REPLAY-RESULT " + json.dumps(out))
    return 1 if out["reproduced"] else 0


def _progress(out, tag="REPLAY-TRY "):
    """Last announced assignment (or job number) of a replay that died."""
    if isinstance(out, bytes):
        out = out.decode(errors="replace")
    last = {} if tag == "REPLAY-TRY " else 0
    for line in (out or "").splitlines():
        if line.startswith(tag):
            last = json.loads(line[len(tag) :])
    return last


def _run_replay(path, timeout=240, crash_ok=False):
    env = dict(os.environ)
    try:
        p = subprocess.run(
            [sys.executable, "-m", "vlib.run", "--replay", path],
            cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            text=True, timeout=timeout,
        )
    except subprocess.TimeoutExpired as e:
        return {
            "reproduced": crash_ok, "timeout": True, "tried": 0, "passed": 0,
            "label": "hang", "detail": f"no result after {timeout} s", "values":
            _progress(e.stdout),
        }
    for line in p.stdout.splitlines():
        if "REPLAY-RESULT " in line:
            return json.loads(line.split("REPLAY-RESULT ", 1)[1])
    if p.returncode < 0 or (crash_ok and p.returncode not in (0, 1, 2)):
        return {
            "reproduced": True, "tried": 0, "passed": 0, "label": "crash",
            "detail": f"interpreter died with {p.returncode}: {p.stderr[-600:]}",
            "values": _progress(p.stdout), "job": _progress(p.stdout, "REPLAY-JOB "),
        }
    return {
        "reproduced": False, "tried": 0, "passed": 0,
        "error": (p.stderr or p.stdout)[-2000:],
    }


def _known():
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line and line.startswith("{"):
                    out.append(json.loads(line))
    return out


def _matches(entry, prop, rec):
    return (
        entry.get("property") == prop
        and entry.get("status") == "known"
        and entry.get("harness") == rec["harness"]
        and entry.get("label") == rec["label"]
        and all(rec["params"].get(k) == v for k, v in entry.get("params", {}).items())
        and all(rec["values"].get(k) == v for k, v in entry.get("values", {}).items())
    )


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay_main(a.replay)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = a.prop.upper()
    mod = load(prop)
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    tasks = []
    hs = [h for h in mod.HARNESSES if not a.only or h.name == a.only]
    for h in hs:
        opts = dict(time_s=300 if tier == "quick" else 2400)
        opts.update(h.opts)
        if tier == "thorough":
            opts.update(h.topts)
        opts["validate"] = h.validate
        opts["seed"] = seed
        for p in h.thorough if tier == "thorough" else h.quick:
            tasks.append((prop, h.name, p, opts))
    results = []
    violations, known, problems = [], [], []
    entries = _known()
    replays = traces = 0
    vain = {}  # replays that did not show what the solver found
    serial = 0
    known_labels = tuple(
        e["label"] for e in entries if e.get("property") == prop and e["status"] == "known"
    )
    deadline = t0 + (480 if tier == "quick" else 6 * 3600)
    tasks = [
        (p, h, q, dict(o, known_labels=known_labels, deadline=deadline))
        for p, h, q, o in tasks
    ]
    gaps = []  # what was not decided although nothing speaks against the property
    seen_known = set()
    runner = _run_tasks(tasks, min(a.jobs, max(1, len(tasks))))
    for r in runner:
        results.append(r)
        if a.v:
            s = r["stats"] or {}
            print(
                f"  {r['harness']} {r['params']} paths={s.get('paths')} "
                f"oblig={s.get('discharged')}/{s.get('obligations')} "
                f"q={s.get('queries')} unk={s.get('unknown')} "
                f"solver={s.get('solver_s', 0):.1f}s wall={s.get('wall_s', 0):.1f}s "
                f"cands={[(c['label'], c['kind']) for c in r['cands']]} "
                f"{r['problems']}",
                flush=True,
            )
            for c in r["cands"]:
                if c["detail"]:
                    print("     ", c["detail"][-500:])
        for q in r["problems"]:
            soft = q.startswith(("exploration stopped", "unsupported"))
            (gaps if soft else problems).append(f"{r['harness']} {r['params']}: {q}")
        # counterexamples are replayed on the unpatched code as soon as they arrive
        for c in r["cands"]:
            key = (r["harness"], c["label"], json.dumps(r["params"], default=str))
            if c["label"] in known_labels and key in seen_known:
                continue
            path = os.path.join(rdir, f"{prop}_{r['harness']}_{serial}.json")
            serial += 1
            job = dict(
                property=prop, harness=r["harness"], params=r["params"],
                symbolic_label=c["label"], kind=c["kind"], values=c["values"],
                decisions=c["decisions"], detail=c["detail"], seed=seed, vary=30,
            )
            with open(path, "w") as f:
                json.dump(job, f, indent=1, default=str)
            kind = (r["harness"], c["label"], c["kind"])
            if (replays > 20 and time.time() > deadline) or vain.get(kind, 0) >= 12:
                gaps.append(f"{r['harness']} {r['params']}: {c['kind']} {c['label']} not replayed")
                continue
            out = _run_replay(path, crash_ok=c["kind"] in ("crash", "hang"))
            replays += 1
            if out["reproduced"]:
                job["found"] = out["values"]
                job["label"] = out["label"]
                job["observed"] = out["detail"]
                with open(path, "w") as f:
                    json.dump(job, f, indent=1, default=str)
                rec = dict(
                    harness=r["harness"], params=r["params"], label=out["label"],
                    detail=out["detail"], replay=path, values=out["values"],
                )
                e = next((e for e in entries if _matches(e, prop, rec)), None)
                if e:
                    known.append((e, rec))
                    seen_known.add(key)
                else:
                    violations.append(rec)
                    break
            else:
                vain[kind] = vain.get(kind, 0) + 1
                # a limit of the encoding (operation or fact the solver does not know):
                # this path is undecided, the real code holds on all its replays
                fine = out.get("passed", 0) + out.get("skipped", 0) > 0
                (gaps if fine else problems).append(
                    f"{r['harness']} {r['params']}: {c['kind']} {c['label']} did not "
                    f"reproduce on the real code ({out}) {c['detail'][-800:]}"
                )
        if violations:
            runner.close()
            break
        if time.time() > deadline + 90:
            gaps.append(f"time budget exhausted with {len(tasks) - len(results)} tasks left")
            runner.close()
            break
    results.sort(key=lambda r: (r["harness"], json.dumps(r["params"], default=str)))
    # validate the encoding: run models of explored paths on the unpatched code
    if not violations:
        jobs = [
            dict(harness=r["harness"], params=r["params"], values=r["models"])
            for r in results if r["models"]
        ]
        nchunk = min(4, max(1, len(jobs) // 3))
        chunks = [jobs[i::nchunk] for i in range(nchunk)]
        paths = []
        for i, ch in enumerate(chunks):
            path = os.path.join(rdir, f"{prop}_validate{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, jobs=ch), f, default=str)
            paths.append(path)
        from concurrent.futures import ThreadPoolExecutor

        with ThreadPoolExecutor(4) as ex:
            outs = list(ex.map(_run_replay, paths))
        for i, (ch, out) in enumerate(zip(chunks, outs)):
            os.remove(paths[i])
            traces += out.get("passed", 0)
            if out["reproduced"]:
                j = ch[out["job"]]
                path2 = os.path.join(rdir, f"{prop}_{j['harness']}_v{i}.json")
                job = dict(
                    property=prop, harness=j["harness"], params=j["params"],
                    values=[out["values"]], found=out["values"], label=out["label"],
                    observed=out["detail"], seed=seed, vary=0,
                )
                with open(path2, "w") as f:
                    json.dump(job, f, indent=1, default=str)
                rec = dict(
                    harness=j["harness"], params=j["params"], label=out["label"],
                    detail=out["detail"], replay=path2, values=out["values"],
                )
                e = next((e for e in entries if _matches(e, prop, rec)), None)
                if e:
                    known.append((e, rec))
                else:
                    violations.append(rec)
            elif out.get("error") or out.get("timeout"):
                problems.append(f"validation: {out}")
    # vacuity
    reached = {}
    for r in results:
        if r["stats"]:
            for k, v in r["stats"]["reach"].items():
                reached.setdefault(r["harness"], {}).setdefault(k, 0)
                reached[r["harness"]][k] += v
    if not violations:
        for h in hs:
            for lab in h.reach:
                if not reached.get(h.name, {}).get(lab):
                    gap = any(g.startswith(h.name + " ") for g in gaps)
                    (gaps if gap else problems).append(
                        f"{h.name}: '{lab}' is unreachable (vacuous)"
                    )

    def tot(key):
        return sum((r["stats"] or {}).get(key, 0) for r in results)

    samples = []
    for r in results:
        if r["models"] and len(samples) < 4:
            samples.append(
                {"harness": r["harness"], "params": r["params"], "path_model": r["models"][0]}
            )
    if not samples:
        samples = [{"harness": r["harness"], "params": r["params"]} for r in results[:2]]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("forks"),
            traces_validated_against_impl=traces, samples=samples,
            explanation=(
                "Symbolic execution of the real functions; every path's assertions are "
                "decided by z3 for all values of the symbolic inputs within the bounds. "
                "states = feasible paths executed, transitions = symbolic branch forks, "
                "traces_validated = path models re-run on the unpatched code."
            ),
            obligations=tot("obligations"), discharged=tot("discharged"),
            solver_queries=tot("queries"), solver_unknown=tot("unknown"),
            solver_s=round(tot("solver_s"), 2), paths_cut_by_bounds=tot("bounded"),
            counterexamples_replayed=replays,
            harnesses=[
                dict(
                    name=h.name, functions_encoded=list(h.functions),
                    bounds=h.bounds, stubs=list(h.stubs),
                    parameter_sets=len(h.thorough if tier == "thorough" else h.quick),
                    reached=reached.get(h.name, {}),
                )
                for h in hs
            ],
            undecided=gaps, problems=problems,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    done = set()
    for e, rec in known:
        key = e.get("id", e.get("what"))
        if key not in done:
            done.add(key)
            print(f"KNOWN-FINDING: property={prop} {e.get('what')}")
    print(
        f"{prop} {tier}: paths={tot('paths')} forks={tot('forks')} "
        f"obligations={tot('discharged')}/{tot('obligations')} queries={tot('queries')} "
        f"unknown={tot('unknown')} solver={tot('solver_s'):.1f}s validated={traces} "
        f"wall={time.time() - t0:.1f}s"
    )
    if violations:
        for v in violations:
            print(f"VIOLATION property={prop} replay={v['replay']}")
            print(f"  {v['harness']} {v['params']}: {v['label']} {v['detail'][:1500]}")
        return 1
    for g in dict.fromkeys(g[:3000] for g in gaps):
        print("UNDECIDED: " + g)
    if gaps and tot("discharged") * 2 < tot("obligations"):
        problems.append("less than half of the assertions could be decided")
    if problems:
        for p in problems:
            print("NO-ANSWER: " + p[:3000])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
