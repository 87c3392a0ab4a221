"""Monitor core: cases, verdicts, counters, replay files and evidence.

A *scenario* is a function ``fn(cx)`` that drives the real code once with a
randomised workload and records what it observes through the ``cx`` monitor.
Every case owns a random stream derived from (seed, property, scenario, index),
so any violation replays from its JSON file alone.

Verdicts: held (exit 0), violated (exit 1, with VIOLATION line and replay
file), inconclusive (exit 2: a deciding monitor was never reached, a worker
died, or the time guard cut the run below its minimum).
"""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter, defaultdict
from dataclasses import dataclass, field
from pathlib import Path

import numpy as np
import pandas as pd

from . import zygote

ROOT = Path(__file__).resolve().parent.parent
REPLAYS = ROOT / "replays"
EVIDENCE = ROOT / "evidence"


class StopCase(Exception):
    """Ends a case early without a verdict (recorded as an event)."""


class Violation(Exception):
    pass


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, (float, np.floating)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:40].tolist(), depth + 1)}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, pd.Series):
        return {"index": [str(i) for i in x.index][:60], "values": jsonable(x.to_numpy(), depth + 1)}
    if isinstance(x, pd.DataFrame):
        return {"index": [str(i) for i in x.index][:60], "columns": [str(i) for i in x.columns][:60],
                "values": jsonable(x.to_numpy(), depth + 1)}
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:300]


@dataclass
class Scenario:
    name: str
    fn: object
    quick: int
    thorough: int
    need: tuple = ()  # events that must be observed over the run, else inconclusive


def scenario(registry, quick, thorough=None, need=()):
    def deco(fn):
        registry.append(Scenario(fn.__name__, fn, quick, thorough or quick * 8, tuple(need)))
        return fn
    return deco


class Cx:
    """The monitor handed to one case."""

    def __init__(self, prop, scn, index, seed, tier):
        self.prop, self.scn, self.index, self.seed, self.tier = prop, scn, index, seed, tier
        self.rng = np.random.default_rng(
            [int(seed) & 0x7FFFFFFF, zlib.crc32(prop.encode()), zlib.crc32(scn.encode()), index])
        self.events = Counter()
        self.states = set()
        self.violations = []
        self.data = {}
        self.n_checks = 0
        self.maxdev = defaultdict(float)

    # -- recording
    def event(self, name, k=1):
        self.events[name] += int(k)

    def state(self, *key):
        self.states.add("|".join(str(k) for k in key))

    def note(self, **kw):
        """Remember inputs for the replay file."""
        self.data.update(kw)

    def stop(self, why):
        self.event("stopped:" + why)
        raise StopCase(why)

    # -- verdicts
    def violate(self, msg, **data):
        rec = {"msg": msg}
        rec.update({k: jsonable(v) for k, v in data.items()})
        self.violations.append(rec)
        if len(self.violations) >= 5:
            raise Violation(msg)

    def check(self, cond, msg, **data):
        self.n_checks += 1
        self.events["chk:" + msg.split(":")[0]] += 1
        if not bool(cond):
            self.violate(msg, **data)
            return False
        return True

    def close(self, got, want, msg, rtol=1e-7, atol=1e-9, **data):
        """Elementwise comparison; shapes must agree."""
        self.n_checks += 1
        key = msg.split(":")[0]
        self.events["chk:" + key] += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.violate(msg + " (shape)", got_shape=g.shape, want_shape=w.shape, **data)
            return False
        if g.size == 0:
            return True
        both_nan = np.isnan(g) & np.isnan(w)
        eq = g == w
        with np.errstate(all="ignore"):
            dev = np.abs(g - w)
            tol = atol + rtol * np.abs(w)
            ok = both_nan | eq | (dev <= tol)
        if not ok.all():
            self.violate(msg, got=g, want=w, maxdev=float(np.nanmax(np.where(ok, 0, dev))) if np.isfinite(dev[~ok]).any() else "nan/inf", **data)
            return False
        self.maxdev[key] = max(self.maxdev[key], float(np.nanmax(np.where(both_nan | eq, 0.0, dev / np.maximum(tol, 1e-300)))))
        return True

    def leq(self, a, b, msg, tol=1e-7, **data):
        """a <= b + tol elementwise (NaN fails)."""
        self.n_checks += 1
        self.events["chk:" + msg.split(":")[0]] += 1
        a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
        bad = ~(a <= b + tol)
        if bad.any():
            self.violate(msg, left=a, right=b, excess=float(np.max((a - b)[bad])), **data)
            return False
        return True

    def raises(self, fn, msg, types=(Exception,), **data):
        """The call must raise; returns the exception."""
        self.n_checks += 1
        self.events["chk:" + msg.split(":")[0]] += 1
        try:
            out = fn()
        except types as e:
            self.event("raised:" + type(e).__name__)
            return e
        except Exception as e:
            self.violate(msg + f" (raised {type(e).__name__} instead)", err=str(e), **data)
            return None
        self.violate(msg + " (returned instead of raising)", out=out, **data)
        return None


_LOADED = {}


def load(prop):
    if prop not in _LOADED:
        _LOADED[prop] = importlib.import_module(f"pvmon.checks.{prop.lower()}")
    return _LOADED[prop]


def run_case(prop, scn_name, index, seed, tier):
    mod = load(prop)
    scn = next(s for s in mod.SCN if s.name == scn_name)
    cx = Cx(prop, scn_name, index, seed, tier)
    t0 = time.time()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(zlib.crc32(f"{seed}{prop}{scn_name}{index}".encode()) & 0x7FFFFFFF)
        try:
            scn.fn(cx)
            cx.event("completed:" + scn_name)
        except StopCase:
            pass
        except Violation:
            pass
        except Exception as e:  # the system under test crashed in a monitored call
            tb = traceback.format_exc(limit=-6)
            cx.violations.append({"msg": f"unexpected {type(e).__name__}: {str(e)[:300]}", "traceback": tb})
    return {
        "scn": scn_name, "index": index, "events": dict(cx.events), "states": sorted(cx.states),
        "violations": cx.violations, "checks": cx.n_checks, "maxdev": dict(cx.maxdev),
        "data": jsonable(cx.data) if cx.violations else None, "t": time.time() - t0,
    }


def _serve(conn, prop, seed, tier):
    """Worker: runs the cases it is sent, one at a time."""
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # native solvers chat on stdout
    if getattr(load(prop), "PRISTINE", False):
        zygote.start(close=[conn.fileno()])
    try:
        while True:
            case = conn.recv()
            if case is None:
                return
            conn.send(run_case(prop, case[0], case[1], seed, tier))
    except (EOFError, KeyboardInterrupt):
        pass


def fatal(case, code):
    """A case whose worker was ended by SIGKILL (memory guard) gave no answer; any other death is a crash of the code under test."""
    r = {"scn": case[0], "index": case[1], "died": True}
    if code not in (-9, None):
        r = {"scn": case[0], "index": case[1], "events": {"interpreter crashed": 1}, "states": [], "checks": 0, "maxdev": {}, "data": None, "t": 0.0,
             "violations": [{"msg": "the interpreter crashed: a call ended the process instead of raising", "exit": code}]}
    return r


class Farm:
    """Forked workers with a watchdog per case: a case that neither returns nor
    raises within `case_cap` seconds is killed and reported as hung; a case that
    takes its worker down twice is a violation (unless the memory guard did it)."""

    def __init__(self, prop, seed, tier, workers, case_cap):
        self.a = (prop, seed, tier)
        self.ctx = mp.get_context("fork")
        self.case_cap = case_cap
        self.slots = [self._spawn() for _ in range(workers)]

    def _spawn(self):
        here, there = self.ctx.Pipe()
        p = self.ctx.Process(target=_serve, args=(there, *self.a), daemon=True)
        p.start()
        there.close()
        return {"p": p, "c": here, "case": None, "t": 0.0}

    def _replace(self, i):
        s = self.slots[i]
        s["p"].kill()
        s["p"].join()
        s["c"].close()
        self.slots[i] = self._spawn()

    def run(self, cases, deadline):
        from multiprocessing.connection import wait
        todo = iter(cases)
        out, exhausted, died = [], False, set()
        while True:
            for s in self.slots:
                if s["case"] is None and not exhausted:
                    case = next(todo, None)
                    if case is None:
                        exhausted = True
                        break
                    if time.time() > deadline:
                        out.append({"scn": case[0], "index": case[1], "skipped": True})
                        out += [{"scn": c[0], "index": c[1], "skipped": True} for c in todo]
                        exhausted = True
                        break
                    s["case"], s["t"] = case, time.time()
                    s["c"].send(case)
            busy = [s for s in self.slots if s["case"] is not None]
            if not busy:
                if exhausted:
                    break
                continue
            ready = wait([s["c"] for s in busy], timeout=1.0)
            for i, s in enumerate(self.slots):
                if s["case"] is None:
                    continue
                if s["c"] in ready:
                    try:
                        out.append(s["c"].recv())
                        s["case"] = None
                    except (EOFError, OSError):
                        s["p"].join(5)
                        code, case = s["p"].exitcode, s["case"]
                        self._replace(i)
                        if case in died:  # twice on the same case: the call itself takes the interpreter down
                            out.append(fatal(case, code))
                        else:
                            died.add(case)
                            self.slots[i].update(case=case, t=time.time())
                            self.slots[i]["c"].send(case)
                elif time.time() - s["t"] > self.case_cap:
                    out.append({"scn": s["case"][0], "index": s["case"][1], "hung": True})
                    self._replace(i)
        for s in self.slots:
            try:
                s["c"].send(None)
            except OSError:
                pass
            s["p"].join(5)
            if s["p"].is_alive():
                s["p"].kill()
        return out


def known_findings(prop):
    """Entries of the committed known-findings file that suppress (none are 'fixed')."""
    path = ROOT / "KNOWN_FINDINGS.txt"
    out = []
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known: property=%s " % prop):
                body = line.split(" ", 2)[2]
                key, _, text = body.partition(" :: ")
                out.append((key.strip(), text.strip() or key.strip()))
    return out


def run(prop, tier, seed, only=None, workers=None, scale=1.0):
    t0 = time.time()
    mod = load(prop)
    cap = float(os.environ.get("PVMON_CAP", "420" if tier == "quick" else "800"))
    deadline = t0 + cap
    cases = []
    planned = Counter()
    per = []
    for s in mod.SCN:
        if only and s.name not in only:
            continue
        n = max(1, int((s.quick * getattr(mod, "QUICK_FACTOR", 3) if tier == "quick" else s.thorough) * scale))
        planned[s.name] = n
        per.append([(s.name, i) for i in range(n)])
    # interleave the scenarios so that the time guard thins all of them evenly
    total = sum(len(p) for p in per)
    keyed = []
    for p in per:
        for j, c in enumerate(p):
            keyed.append(((j + 0.5) / len(p), c))
    keyed.sort(key=lambda kc: kc[0])
    cases = [c for _, c in keyed]
    workers = workers or min(8, os.cpu_count() or 1)
    if workers == 1:
        results = [run_case(prop, c[0], c[1], seed, tier) if time.time() <= deadline
                   else {"scn": c[0], "index": c[1], "skipped": True} for c in cases]
    else:
        results = Farm(prop, seed, tier, workers, float(os.environ.get("PVMON_CASE_CAP", "90"))).run(cases, deadline)
    crashed = None
    return finish(prop, tier, seed, mod, planned, results, crashed, t0)


def finish(prop, tier, seed, mod, planned, results, crashed, t0):
    events, states, done, skipped = Counter(), set(), Counter(), Counter()
    checks, viols, maxdev, nontrivial = 0, [], defaultdict(float), 0
    lost = []
    slow = sorted(((r.get("t", 0), r["scn"], r["index"]) for r in results), reverse=True)[:3]
    for r in results:
        if r.get("skipped"):
            skipped[r["scn"]] += 1
            continue
        if r.get("hung") or r.get("died"):
            lost.append((r["scn"], r["index"], "no answer" if r.get("hung") else "worker died"))
            continue
        done[r["scn"]] += 1
        events.update(r["events"])
        states.update(r["states"])
        checks += r["checks"]
        nontrivial += r["checks"] > 0
        for k, v in r["maxdev"].items():
            maxdev[k] = max(maxdev[k], v)
        if r["violations"]:
            viols.append(r)
    viols.sort(key=lambda r: (r["scn"], r["index"]))
    if lost:
        events["case_without_answer"] = len(lost)
        print(f"cases without an answer: {lost[:10]}")
        if len(lost) > max(3, 0.02 * max(1, sum(done.values()))):
            crashed = f"{len(lost)} cases gave no answer"

    # a deciding monitor that was never reached makes the run inconclusive
    missing = []
    for s in mod.SCN:
        if s.name not in planned:
            continue
        if done[s.name] == 0:
            missing.append(f"{s.name}: no case ran")
        if not any(k == "completed:" + s.name for k in events):
            missing.append(f"{s.name}: no case completed")
        for ev in s.need:
            if events.get(ev, 0) == 0:
                missing.append(f"{s.name}: event '{ev}' never observed")

    known = known_findings(prop)
    reported, knowns = [], []
    for r in viols:
        for v in r["violations"]:
            key = f"{r['scn']}/{v['msg']}"
            hit = next((k for k in known if key.startswith(k[0])), None)
            if hit:
                knowns.append(hit)
            else:
                reported.append((r, v))
    for k in sorted(set(knowns)):
        print(f"KNOWN-FINDING: property={prop} {k[1]}")

    vio_out = []
    if reported:
        REPLAYS.mkdir(exist_ok=True)
        seen = set()
        for r, v in reported:
            sig = (r["scn"], v["msg"].split(":")[0])
            if sig in seen or len(seen) >= 8:
                continue
            seen.add(sig)
            path = REPLAYS / f"{prop}-{tier}-{seed}-{r['scn']}-{r['index']}.json"
            path.write_text(json.dumps({
                "property": prop, "tier": tier, "seed": seed, "scenario": r["scn"], "index": r["index"],
                "violations": r["violations"], "inputs": r["data"],
                "replay": f"bash /verif/check.sh {prop} --replay {path}",
            }, indent=1))
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {r['scn']}[{r['index']}]: {v['msg']}  {json.dumps({k: x for k, x in v.items() if k not in ('msg', 'traceback')})[:600]}")
            if "traceback" in v:
                print("  " + v["traceback"].strip().replace("\n", "\n  ")[-1500:])
            vio_out.append({"scenario": r["scn"], "index": r["index"], "msg": v["msg"], "replay": str(path)})

    wall = time.time() - t0
    EVIDENCE.mkdir(exist_ok=True)
    comp = {k: v for k, v in sorted(events.items()) if not k.startswith("chk:")}
    chk = {k[4:]: v for k, v in sorted(events.items()) if k.startswith("chk:")}
    ev = {
        "property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": int(sum(done.values())),
            "distinct_nontrivial": int(max(len(states), 0) or nontrivial),
            "rule": getattr(mod, "RULE", "one evaluation = one randomised case driven through the real code with its "
                            "monitors on; distinct_nontrivial = distinct workload shapes (input kind x options x outcome) in "
                            "which at least one oracle comparison was made"),
            "samples": sorted(states)[:12] or ["none"],
            "oracle_comparisons": int(checks),
            "cases_per_scenario": {k: {"planned": planned[k], "ran": done[k], "time_guard_skipped": skipped[k]} for k in planned},
            "events": comp, "comparisons_by_kind": chk,
            "largest_deviation_over_tolerance": {k: round(v, 6) for k, v in sorted(maxdev.items())},
            "cases_without_answer": [list(x) for x in lost],
            "inconclusive_reasons": missing + ([crashed] if crashed else []),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) or ["CVXOPT/GLPK and SciPy/HiGHS report their solve status truthfully"],
        "wall_s": round(wall, 2),
        "violations": vio_out,
    }
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop} {tier} seed={seed}: cases={sum(done.values())} comparisons={checks} states={len(states)} "
          f"violations={len(reported)} skipped={sum(skipped.values())} wall={wall:.1f}s slowest={slow[:1]}")
    if reported:
        return 1
    if crashed or missing:
        print("INCONCLUSIVE: " + "; ".join(missing + ([crashed] if crashed else [])))
        return 2
    return 0


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        rep = json.loads(Path(a.replay).read_text())
        out = run_case(rep["property"], rep["scenario"], rep["index"], rep["seed"], rep["tier"])
        print(json.dumps({k: out[k] for k in ("violations", "data", "events")}, indent=1))
        return 1 if out["violations"] else 0
    return run(a.prop, a.tier, a.seed, a.only, a.workers, a.scale)
