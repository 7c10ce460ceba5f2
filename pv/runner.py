"""Runs the contracts of one property and writes evidence."""
from __future__ import annotations
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
os.environ.setdefault("TQDM_DISABLE", "1")
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


def load(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def units_of(mod):
    us = mod.units()
    names = [u.name for u in us]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    return us


def work(job):
    """run one unit in a forked worker"""
    pid, idx, tier, seed, t_run = job
    from . import verify as V, solve, cex
    from . import terms as tm
    from .engine import PathLimit
    mod = load(pid)
    unit = units_of(mod)[idx]
    out = {"unit": unit.name, "bounded": unit.bounded}
    t_start = time.time()
    deep = tier == "thorough"
    signal.signal(signal.SIGALRM, _alarm)
    contracts = getattr(mod, "CONTRACTS", {})
    for k in solve.STATS:
        solve.STATS[k] = 0 if k != "z3_time" else 0.0
    solve.Z3_TIMEOUT[0] = 20000 if deep else 6000
    res = None
    if unit.bounded is None:
        left = (300 if not deep else 2400) - (time.time() - t_run)
        limit = int(max(5, min(unit.limit * (3 if deep else 1), left)))
        signal.alarm(limit)
        try:
            res = V.run_symbolic(unit, contracts)
            signal.alarm(0)
        except Timeout:
            res = V.Result(unit)
            res.status, res.reason = "unsupported", f"time limit of {limit}s reached"
        except Exception as e:                      # engine failure: never an alarm by itself
            signal.alarm(0)
            res = V.Result(unit)
            res.status, res.reason = "unsupported", f"engine: {type(e).__name__}: {e}"
        finally:
            signal.alarm(0)
    else:
        res = V.Result(unit)
        res.status, res.reason = "bounded", unit.bounded
    out.update(status=res.status, reason=res.reason, paths=res.paths, time=round(res.time, 3),
               obligations=[(a, bool(b), c) for a, b, c in res.obligations], touched=sorted(res.touched),
               failures=res.failures[:20], stats=dict(solve.STATS))
    # ---- concrete cross-check / counterexample search on the real code
    n = unit.samples if not deep else unit.samples * 10
    base_limit = 20 if not deep else 90
    V.CONSTS[:] = []
    fixed = []
    late = time.time() - t_run > (420 if not deep else 2400)      # many failing units: keep the whole run within its time
    if late:
        base_limit = 8
    if res.status == "failed" and not late:
        n = max(n, 500)
        base_limit = 60 if not deep else 200
        consts = set()
        try:
            ft = getattr(res, "fail_terms", [])
            consts = cex.harvest_terms([g for _, g, c, _ in ft] + [h for _, g, c, cs in ft for h in cs])
            consts |= cex.harvest_source(res.touched)
            D = V.Decl()
            unit.build(D)
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(45)
            try:
                for nme, g, c, cs in ft[:4]:
                    for f in cex.models(D, g, c, seed=seed):
                        fixed.append(f)
            finally:
                signal.alarm(0)
        except Timeout:
            pass
        except Exception as e:
            out["cex_error"] = "".join(traceback.format_exception(e))[-800:]
        V.CONSTS[:] = [float(c) for c in consts if abs(c) < 1e9]
    elif res.status in ("unsupported",):
        n = max(n, 300)
        base_limit = (60 if not deep else 200) if not late else 8
        try:
            V.CONSTS[:] = [float(c) for c in cex.harvest_source(res.touched) if abs(c) < 1e9]
        except Exception:
            pass
    if unit.samples == 0 and res.status == "proved":
        n = 0
    try:
        c = V.run_concrete(unit, n, seed, fixed, base_limit) if n or fixed else {"samples": 0, "checks": 0, "rejected": 0, "fail": None, "errors": 0}
    except Timeout:
        c = {"samples": 0, "checks": 0, "rejected": 0, "fail": None, "errors": 0, "timeout": True}
    V.CONSTS[:] = []
    out["concrete"] = c
    if res.status == "failed" and res.missing and not c.get("fail"):
        # the proof is stated over symbols that the contracts of these functions introduce; code that no longer calls them
        # cannot be compared with it: not decided, and no failing input was found
        out["status"], out["reason"] = "unsupported", f"the code no longer calls {', '.join(res.missing)}, which the proof is stated over"
        out["obligations"] = [o for o in out["obligations"] if o[1]]
    out["models_tried"] = len(fixed)
    out["wall"] = round(time.time() - t_start, 3)
    return out


def guarded(job):
    try:
        return work(job)
    except BaseException as e:
        return no_answer(f"#{job[1]}", "crash", "".join(traceback.format_exception(e))[-2000:])


def no_answer(name, status, reason):
    return {"unit": name, "status": status, "reason": reason, "bounded": None,
            "obligations": [], "touched": [], "failures": [], "paths": 0, "time": 0, "stats": {},
            "concrete": {"samples": 0, "checks": 0, "rejected": 0, "fail": None, "errors": 0}, "wall": 0}


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


MODULES = ("obp", "obp.utils", "obp.ope", "obp.policy", "obp.dataset", "obp.simulator")


def import_failure(pid, tier, seed, exc, t0):
    """the property module (or obp itself) cannot be imported from this tree"""
    os.makedirs(EVID, exist_ok=True)
    txt = "".join(traceback.format_exception(exc))
    rp = os.path.join(EVID, f"{pid}.replay.json")
    json.dump({"property": pid, "obligation": "module import", "verifier_output": txt}, open(rp, "w"), indent=1)
    print(txt[-1500:])
    try:
        for m in MODULES:
            importlib.import_module(m)
        broken = False
    except Exception:
        broken = True
    if broken:
        print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    else:
        # the package is fine, but names the contracts are anchored at are gone: nothing can be decided, which is not an alarm
        print(f"{pid}: contracts could not be anchored; no verdict")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.time() - t0,
          "coverage": {"obligations": 1, "discharged": 0, "checker_cmd": f"./check {pid}", "trusted_base": []},
          "assumptions": ["contracts could not be anchored in this tree" if not broken else "package import fails"], "violations": int(broken)}
    json.dump(ev, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1)
    return int(broken)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--unit", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args(argv)
    if a.selftest:
        from .selftest import selftest
        return selftest()
    pid = a.pid.upper()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        mod = load(pid)
        us = units_of(mod)
    except Exception as e:
        return import_failure(pid, tier, seed, e, t0)
    if a.debug:
        from . import verify as V
        for u in us:
            if a.unit is None or a.unit in u.name:
                r = V.run_symbolic(u, getattr(mod, "CONTRACTS", {}), verbose=True)
                print(u.name, r.status, r.reason[:300], round(r.time, 2), "paths", r.paths, "obl", len(r.obligations))
                for f in r.failures[:int(os.environ.get("NF", "4"))]:
                    print("   FAIL", f[0], "\n      goal", f[1][:1200], "\n      path", f[2][:800])
                if os.environ.get("SHOWNF"):
                    from . import norm as nm
                    for nme, g, c, cs in getattr(r, "fail_terms", [])[:2]:
                        if g.op == "eq":
                            print("   LHS", nm.norm(g.args[0]))
                            print("   RHS", nm.norm(g.args[1]))
        return 0
    jobs = [(pid, i, tier, seed, t0) for i in range(len(us)) if a.unit is None or a.unit in us[i].name]
    if a.j > 1 and len(jobs) > 1:
        ctx = mp.get_context("fork")
        jobs.sort(key=lambda j: -us[j[1]].limit)
        with ctx.Pool(min(a.j, len(jobs)), maxtasksperchild=1) as pool:
            pend = [(j, pool.apply_async(guarded, (j,))) for j in jobs]
            end = t0 + (780 if tier != "thorough" else 7200)
            results = []
            for j, h in pend:
                try:
                    results.append(h.get(timeout=max(1, end - time.time())))
                except mp.TimeoutError:
                    results.append(no_answer(us[j[1]].name, "unsupported", "the time of the whole run is used up"))
            pool.terminate()
        results.sort(key=lambda r: r["unit"])
    else:
        results = [guarded(j) for j in jobs]
    known = [k for k in load_known() if k["property"] == pid]
    viol = []
    for r in results:
        if a.v:
            print(f"[{r['status']}] {r['unit']}  paths={r['paths']} obl={sum(o[1] for o in r['obligations'])}/{len(r['obligations'])} "
                  f"sym={r['time']}s wall={r['wall']}s conc={r['concrete']['samples']}({r['concrete']['checks']} checks, {r['concrete']['rejected']} rej, {r['concrete'].get('errors')} err) {r['reason'][:300]}")
            if r["concrete"].get("last_error"):
                print("     conc error:", r["concrete"]["last_error"][-700:])
            if r.get("cex_error"):
                print("     cex error:", r["cex_error"])
        f = r["concrete"].get("fail")
        if f:
            k = [k for k in known if k["unit"] == r["unit"] and k["obligation"] == f["obligation"]]
            if k:
                print(f"KNOWN-FINDING: property={pid} {k[0]['what']}")
                continue
            viol.append((r, f))
        elif r["status"] == "failed":
            viol.append((r, None))
    os.makedirs(EVID, exist_ok=True)
    nob = sum(len(r["obligations"]) for r in results)
    ndis = sum(1 for r in results for o in r["obligations"] if o[1])
    if nob == 0 and not viol and a.unit is None and not any(r["concrete"]["checks"] for r in results):
        viol.append(({"unit": "(all)", "status": "failed", "reason": "no obligations generated for the whole property",
                      "failures": [], "obligations": [], "touched": []}, None))
    proved = [r["unit"] for r in results if r["status"] == "proved"]
    notproved = [{"unit": r["unit"], "status": r["status"], "why": r["reason"][:300],
                  "bounded_check": f"{r['concrete']['samples']} sampled inputs run on the real code, {r['concrete']['checks']} checks"}
                 for r in results if r["status"] not in ("proved",)]
    touched = sorted({t for r in results for t in r["touched"]})
    be = {}
    for r in results:
        for o in r["obligations"]:
            if o[1]:
                be[o[2]] = be.get(o[2], 0) + 1
    from . import assumptions as A
    ass = A.COMMON + list(getattr(mod, "ASSUMPTIONS", []))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof" if not getattr(mod, "LEVEL", None) else mod.LEVEL,
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": f"./check {pid} --tier {tier}",
            "trusted_base": A.TRUSTED,
            "contracts": [{"unit": r["unit"], "status": r["status"], "paths": r["paths"], "obligations": len(r["obligations"]),
                           "discharged": sum(1 for o in r["obligations"] if o[1]), "seconds": r["time"]} for r in results],
            "functions_under_contract": touched,
            "backends": be,
            "solver_seconds": round(sum(r["stats"].get("z3_time", 0) for r in results), 3),
            "z3_queries": sum(r["stats"].get("z3", 0) for r in results),
            "not_proved": notproved,
            "proved_units": len(proved),
            "replay_crosscheck": {"inputs": sum(r["concrete"]["samples"] for r in results),
                                  "checks": sum(r["concrete"]["checks"] for r in results),
                                  "note": "real code run on sampled inputs against the same contracts; a cross-check of the extraction, not counted as proof"},
        },
        "assumptions": ass,
        "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1, default=str)
    for n, (r, f) in enumerate(viol):
        rp = os.path.join(EVID, f"{pid}.replay{n}.json")
        rec = {"property": pid, "unit": r["unit"], "status": r["status"], "reason": r.get("reason"),
               "failed_obligations": r.get("failures"), "functions": r.get("touched")}
        if f:
            rec["failing_input"] = f
            print(f"  {r['unit']}: {f['obligation']}: {f['detail']}")
        else:
            rec["verifier_output"] = {"obligations": r.get("obligations"), "reason": r.get("reason")}
            for x in r.get("failures", [])[:2] if n < 3 else []:
                print(f"  {r['unit']}: obligation not discharged: {x[0]}\n      goal: {x[1][:200]}\n      path: {x[2][:160]}")
        json.dump(rec, open(rp, "w"), indent=1, default=str)
        if f or not any(x[1] for x in viol):
            print(f"VIOLATION property={pid} replay={rp}" + ("" if f else " no-failing-input-found"))
        else:
            print(f"  also not discharged (see {rp}): {r['unit']}")
    if a.v or True:
        print(f"{pid}: {len(results)} contracts, {len(proved)} proved, {len(notproved)} not proved, obligations {ndis}/{nob}, "
              f"{len(touched)} functions interpreted, {time.time() - t0:.1f}s")
        for x in notproved[:8]:
            print("   not proved:", x["unit"], "-", x["status"], "-", x["why"][:200])
    return 1 if viol else 0
