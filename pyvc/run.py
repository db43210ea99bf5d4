"""Run the check of one property:  python -m pyvc.run C01 [--thorough] [--replay FILE]"""
from __future__ import annotations

import ast
import concurrent.futures
import enum
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import random
import re
import sys
import time
from time import perf_counter
import traceback
import types
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
warnings.simplefilter("ignore")
logging.disable(logging.NOTSET)
logging.lastResort = None
logging.raiseExceptions = False
logging.getLogger().addHandler(logging.NullHandler())

TRUSTED = [
    "the pyvc symbolic interpreter's reading of Python semantics (cross-checked against CPython on every run: one concrete execution per explored path)",
    "z3 (and cvc5 where it is named as the discharging back end)",
    "pyvc's library theory for builtins, hashlib (digests as uninterpreted functions of known length), struct, base64 and JSON (models.py)",
]


# ---------------------------------------------------------------- value encoding for replay files
def enc(v):
    if isinstance(v, enum.Enum):
        return {"$enum": [type(v).__module__, type(v).__qualname__, v.name]}
    if isinstance(v, bytes):
        return {"$bytes": v.hex()}
    if isinstance(v, float):
        return {"$float": repr(v)}
    return v


def dec(v):
    if isinstance(v, dict):
        if "$enum" in v:
            m, q, n = v["$enum"]
            return getattr(importlib.import_module(m), q)[n]
        if "$bytes" in v:
            return bytes.fromhex(v["$bytes"])
        if "$float" in v:
            return float(v["$float"])
    return v


def load_specs(pid):
    d = VERIF / "specs"
    for f in sorted(d.glob(f"{pid.lower()}*.py")):
        importlib.import_module(f"specs.{f.stem}")
    from .registry import CONTRACTS

    return [c for c in CONTRACTS if c.prop == pid]


def const_pool(functions):
    """Integers, strings and floats occurring in the functions the contract reached."""
    from .interp import file_index

    ints, strs, floats = set(), set(), set()
    files = {}
    for q in functions:
        m, qn = q.split(":")
        mod = sys.modules.get(m)
        if mod is None:
            continue
        files.setdefault(mod.__file__, set()).add(qn.split(".")[-1])
    for f, names in files.items():
        try:
            tree = file_index(f)["tree"]
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in names:
                for x in ast.walk(n):
                    if isinstance(x, ast.Constant):
                        v = x.value
                        if isinstance(v, bool) or v is None:
                            continue
                        if isinstance(v, int):
                            ints.update((v - 1, v, v + 1, -v))
                        elif isinstance(v, float):
                            floats.add(v)
                        elif isinstance(v, str) and len(v) < 30:
                            strs.add(v)
    return {"int": sorted(ints), "str": sorted(strs), "float": sorted(floats)}


def conc_once(con, rng, witness, pool):
    from .ctx import AssumeFailed, CheckFailed, ConcCtx
    from .values import EngineSignal

    c = ConcCtx(rng, witness, pool)
    try:
        con.driver(c)
        if c.stopped:
            raise c.stopped
        return "ok", c, None
    except AssumeFailed:
        return "discard", c, None
    except CheckFailed as f:
        return "fail", c, f
    except EngineSignal as e:
        return "error", c, e
    except Exception as e:  # noqa: BLE001
        if not harness(e) and not (c.last and harness(c.last)):
            f = CheckFailed(FORM, f"{type(e).__name__}: {e}" + (f" after {type(c.last).__name__}: {c.last}" if c.last else ""))
            f.__traceback__ = e.__traceback__
            return "fail", c, f
        return "error", c, e
    finally:
        c.unpatch()


FORM = "what is returned has the form the contract expects"


def harness(e):
    """Does the exception tell that the contract no longer fits the code's inner structure (a name it uses, a signature),
    rather than that a value is not what the contract expects?"""
    from .ctx import NoValue

    if isinstance(e, NoValue):
        e = e.args[0]
    tb = traceback.extract_tb(e.__traceback__)
    if tb and Path(tb[-1].filename).parent == Path(__file__).parent:
        return True
    if isinstance(e, (ImportError, NameError, RecursionError, MemoryError)):
        return True
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if o is None:
            return "NoneType" not in str(e)
        return isinstance(o, (type, types.ModuleType)) or str(e.name).startswith("_") or type(o).__module__.split(".")[0] in ("specs", "pyvc")
    return isinstance(e, TypeError) and re.search(r"unexpected keyword|positional|required keyword|takes .*argument", str(e)) is not None


def work(args):
    idx, pid, tier, seed = args
    con = load_specs(pid)[idx]
    return run_contract(con, tier, seed)


def run_contract(con, tier, seed):
    from . import anchors
    from .session import Session

    res = {"name": con.name, "funcs": list(con.funcs), "bounded": con.bounded}
    t0 = perf_counter()
    opts = dict(con.opts)
    if tier == "thorough":
        opts["time_limit"] = opts.get("time_limit", 240) * 3
        opts["max_paths"] = opts.get("max_paths", 6000) * 3
        opts["second"] = True
    S = Session(con.driver, opts).run()
    missing = [c for c in con.covers if c not in S.covers]
    obs = {}
    for o in S.obs.values():
        obs[o.label] = {
            "vcs": o.count, "trivial": o.trivial, "z3": o.by_z3, "cvc5": o.by_cvc5, "refuted": len(o.refuted),
            "unknown": o.unknown, "invariant": o.inv, "solver_s": round(o.solver_s, 3),
        }
    res.update(
        paths=S.paths, complete=S.complete, restarts=S.restarts, obligations=obs, unsupported=S.unsupported,
        functions=sorted(S.functions), sym_wall=round(S.wall, 2), solver_s=round(S.solver_s, 3),
        cut_loops=[f"{Path(f).name}:{n}" for f, n in sorted(S.cut_loops)], missing_covers=missing,
        unknown_feas=S.unknown_feas,
    )
    nobl = sum(o["vcs"] for o in obs.values())
    refuted = [(o.label, r) for o in S.obs.values() for r in o.refuted if r is not None]
    n_ref = sum(o["refuted"] for o in obs.values())
    unk = sum(o["unknown"] for o in obs.values())
    proved = n_ref == 0 and unk == 0 and not S.unsupported and not missing and nobl > 0
    res["proved"] = proved
    res["nobl"] = nobl
    res["discharged"] = sum(o["trivial"] + o["z3"] + o["cvc5"] for o in obs.values())

    # ---- concrete executions of the same contract on the real code
    pool = const_pool(S.functions)
    rng = random.Random(f"{seed}/{con.prop}/{con.name}")
    conc = {"runs": 0, "ok": 0, "discarded": 0, "errors": {}, "checks": {}, "path_models": 0, "path_model_ok": 0}
    failure = None
    covers = set()

    def one(witness, kind):
        nonlocal failure
        st, c, ex = conc_once(con, rng, witness, pool)
        conc["runs"] += 1
        covers.update(c.covers)
        for k, v in c.checked.items():
            conc["checks"][k] = conc["checks"].get(k, 0) + v
        if st == "ok":
            conc["ok"] += 1
        elif st == "discard":
            conc["discarded"] += 1
        elif st == "error":
            k = f"{type(ex).__name__}: {ex}"[:200]
            if k not in conc["errors"]:
                tb = traceback.extract_tb(ex.__traceback__)
                conc["errors"][k] = " <- ".join(f"{Path(t.filename).name}:{t.lineno}" for t in reversed(tb[-4:]))
        elif st == "fail":
            failure = {"label": ex.label, "detail": str(ex.detail)[:1500], "witness": {k: enc(v) for k, v in c.drawn},
                       "kind": kind, "trace": [repr(x)[:300] for x in c.trace][-40:]}
        return st

    # models of refuted obligations first
    replayed = []
    for label, r in refuted:
        st = one(r["witness"], "model")
        replayed.append((label, st))
        if failure:
            break
    # one model per explored path: CPython cross-check
    if not failure:
        for w in S.path_models:
            conc["path_models"] += 1
            st = one(w, "path")
            if st == "ok":
                conc["path_model_ok"] += 1
            if failure:
                break
    if not failure:
        budget = con.runs * (20 if tier == "thorough" else 1)
        tlim = 60 if tier == "thorough" else 10
        if not proved:
            budget *= 10
            tlim = max(tlim, 45)
        t1 = perf_counter()
        base = [r["witness"] for _, r in refuted] + S.path_models
        for i in range(budget):
            if perf_counter() - t1 > tlim:
                break
            w = {}
            if base and rng.random() < 0.6:
                b = rng.choice(base)
                p = rng.choice([0.1, 0.3, 0.6])
                w = {k: v for k, v in b.items() if rng.random() > p}
            one(w, "search")
            if failure:
                break
    stale = sorted(anchors.used(con.driver) & anchors.gone(Path(REPO) / "kasa"))
    if stale and (failure or not proved):
        # the contract holds on to names the code no longer has: what it found is no verdict
        S.unsupported["names that are gone: " + ", ".join(stale)] = 1
        res["unsupported"], res["proved"], failure, refuted = S.unsupported, False, None, []
    else:
        stale = []
    res["stale"] = stale
    conc["covers_missing"] = [c for c in con.covers if c not in covers]
    res["conc"] = conc
    res["failure"] = failure
    res["refuted"] = [
        {"label": l, "cut": r["cut"], "detail": r["detail"], "decisions": r["decisions"], "trace": r["trace"],
         "witness": {k: enc(v) for k, v in r["witness"].items()}, "inv": S.obs[l].inv}
        for l, r in refuted[:12]
    ]
    res["wall"] = round(perf_counter() - t0, 2)
    return res


def known_findings(pid):
    out = []
    f = VERIF / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("finding:"):
                d = json.loads(line[len("finding:"):])
                if d["property"] == pid:
                    out.append(d)
    return out


def main(argv):
    global VERBOSE
    pid = argv[0]
    if "-vv" in argv:
        VERBOSE = 2
        argv.append("-v")
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in argv:
        return replay(pid, argv[argv.index("--replay") + 1])
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    t0 = perf_counter()
    import kasa

    assert kasa.__file__.startswith(REPO + "/"), kasa.__file__
    cons = load_specs(pid)
    from .registry import PROPS

    if not cons:
        print(f"no contracts for {pid}", file=sys.stderr)
        return 3
    jobs = [(i, pid, tier, seed) for i, c in enumerate(cons) if only is None or c.name == only]
    results = []
    if len(jobs) == 1 or "--serial" in argv:
        results = [work(j) for j in jobs]
    else:
        ctx = multiprocessing.get_context("fork")
        with concurrent.futures.ProcessPoolExecutor(max_workers=min(8, len(jobs)), mp_context=ctx) as ex:
            futs = [ex.submit(work, j) for j in jobs]
            for j, f in zip(jobs, futs):
                results.append(f.result())
    return report(pid, tier, seed, cons, results, t0, verbose="-v" in argv)


def report(pid, tier, seed, cons, results, t0, verbose=False):
    from .registry import PROPS

    info = PROPS.get(pid)
    finds = known_findings(pid)
    violations = []
    known_hit = {}
    undecided = []
    for r in results:
        if verbose:
            show(r)
        f = r["failure"]
        if f is not None:
            k = next((d for d in finds if d["contract"] == r["name"] and d["label"] == f["label"]), None)
            if k:
                known_hit[k["what"]] = k
                continue
            violations.append((r, f["label"], f, True))
            continue
        # a counterexample that starts from a havocked loop state may be unreachable: without a concrete input it only
        # means the invariants were too weak, so the contract counts as undecided; any other refutation is a violation
        hard = [x for x in r["refuted"] if not x["inv"] and not x["cut"]]
        if hard and not r["bounded"]:
            x = hard[0]
            k = next((d for d in finds if d["contract"] == r["name"] and d["label"] == x["label"]), None)
            if k:
                known_hit[k["what"]] = k
                continue
            violations.append((r, x["label"], x, False))
            continue
        if not r["proved"]:
            undecided.append(r)
    nobl = sum(r["nobl"] for r in results)
    disch = sum(r["discharged"] for r in results)
    backend = {"trivial": 0, "z3": 0, "cvc5": 0}
    for r in results:
        for o in r["obligations"].values():
            for k in backend:
                backend[k] += o[k]
    proved = [r["name"] for r in results if r["proved"] and not r["bounded"]]
    bounded_ok = [r["name"] for r in results if r["proved"] and r["bounded"]]
    funcs = sorted({f for r in results for f in r["functions"]})
    fproved = sorted({f for r in results if r["proved"] and not r["bounded"] for f in r["functions"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": info.level if info else "proof",
        "coverage": {
            "obligations": nobl, "discharged": disch,
            "checker_cmd": f"bin/check {pid}" + (" --thorough" if tier == "thorough" else ""),
            "trusted_base": TRUSTED,
            "named_obligations": {f"{r['name']}/{l}": o for r in results for l, o in r["obligations"].items()},
            "discharged_by": backend,
            "obligations_of_bounded_contracts": sum(r["nobl"] for r in results if r["bounded"]),
            "solver_s": round(sum(r["solver_s"] for r in results), 2),
            "contracts": len(results), "contracts_proved": proved,
            "bounded_contracts_discharged_within_their_bound": bounded_ok,
            "bounded_standins": {r["name"]: r["bounded"] for r in results if r["bounded"]},
            "undecided_this_run": {r["name"]: {"unsupported": r["unsupported"], "unknown": sum(o["unknown"] for o in r["obligations"].values()), "missing_covers": r["missing_covers"]} for r in undecided},
            "functions_under_contract": funcs, "functions_fully_proved": fproved,
            "paths": sum(r["paths"] for r in results),
            "loops_cut_by_invariant": sorted({l for r in results for l in r["cut_loops"]}),
            "loops_note": "every other loop on the explored paths iterates over a collection whose size is fixed by the contract and is unrolled completely",
            "concrete_runs_of_the_contracts_on_the_real_code": sum(r["conc"]["runs"] for r in results),
            "path_models_replayed_under_cpython": sum(r["conc"]["path_models"] for r in results),
            "path_models_agreeing": sum(r["conc"]["path_model_ok"] for r in results),
            "concrete_errors": {r["name"]: r["conc"]["errors"] for r in results if r["conc"]["errors"]},
        },
        "assumptions": list(info.assumptions if info else ()) + sorted({a for c in cons for a in c.assumes}) + [
            "machine floats are treated as mathematical reals (NaN and infinities as separate cases where a contract lists them)",
            "await points do not interleave other tasks of the same program unless a contract says so",
        ],
        "wall_s": round(perf_counter() - t0, 2),
        "violations": len(violations),
    }
    if known_hit:
        ev["known_findings"] = sorted(known_hit)
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    for w, d in known_hit.items():
        print(f"KNOWN-FINDING: property={pid} {w}")
    print(
        f"{pid}: {len(results)} contracts, {nobl} obligations, {disch} discharged "
        f"(z3 {backend['z3']}, cvc5 {backend['cvc5']}, syntactic {backend['trivial']}), {len(proved)} contracts proved, {len(bounded_ok)} discharged within a stated bound, "
        f"{len(undecided)} decided by bounded execution only, {ev['coverage']['paths']} paths, {ev['wall_s']} s"
    )
    for r in undecided:
        how = "(bounded stand-in passed)" if r["conc"]["ok"] and not r["stale"] else "(not executed either)"
        print(f"  undecided {how}: {r['name']}: {dict(list(r['unsupported'].items())[:3])} unknown={sum(o['unknown'] for o in r['obligations'].values())} missing={r['missing_covers']}")
    if not violations:
        ran = sum(sum(r["conc"]["checks"].values()) for r in results)
        if nobl == 0 and ran == 0:
            print("nothing was checked", file=sys.stderr)
            return 3
        for r in results:
            if r["conc"]["ok"] == 0 and not r["proved"] and not any(k["contract"] == r["name"] for k in known_hit.values()):
                # it does not fit the code's inner structure any more, which says nothing about the code's behaviour
                print(f"contract {r['name']} was neither proved nor executed: {r['conc']['errors']} {r['unsupported']}", file=sys.stderr)
        return 0
    rd = VERIF / "replays"
    rd.mkdir(exist_ok=True)
    violations.sort(key=lambda v: not v[3])
    for r, label, x, confirmed in violations:
        body = {
            "property": pid, "contract": r["name"], "obligation": label, "confirmed_on_real_code": confirmed,
            "detail": x.get("detail"), "witness": x.get("witness"), "trace": x.get("trace"),
            "how": f"bin/check {pid} --replay <this file>" if confirmed else "no concrete failing input was found; verifier output below",
            "verifier": {"refuted": r["refuted"], "obligation_stats": r["obligations"].get(label)},
        }
        h = hashlib.sha256(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = rd / f"{pid}-{r['name']}-{h}.json"
        p.write_text(json.dumps(body, indent=1, default=str) + "\n")
        print(f"  failed obligation {r['name']}/{label}: {str(x.get('detail'))[:300]}")
        print(f"VIOLATION property={pid} replay={p}" + ("" if confirmed else " no-failing-input-found"))
    return 1


VERBOSE = 1


def show(r):
    print(f"-- {r['name']}: proved={r['proved']} paths={r['paths']} complete={r['complete']} obl={r['nobl']} restarts={r['restarts']} sym={r['sym_wall']}s wall={r['wall']}s")
    for l, o in r["obligations"].items():
        if o["refuted"] or o["unknown"] or o["solver_s"] > 2 or VERBOSE > 1:
            print(f"     {l}: vcs={o['vcs']} triv={o['trivial']} z3={o['z3']} cvc5={o['cvc5']} refuted={o['refuted']} unknown={o['unknown']} {o['solver_s']}s")
    if r["unsupported"]:
        print("     unsupported:", r["unsupported"])
    if r["missing_covers"]:
        print("     MISSING COVERS", r["missing_covers"])
    c = r["conc"]
    print(f"     conc: runs={c['runs']} ok={c['ok']} disc={c['discarded']} models={c['path_models']}/{c['path_model_ok']} missing={c['covers_missing']} err={c['errors']}")
    if r["failure"]:
        print("     FAILURE", json.dumps(r["failure"])[:1500])
    for x in r["refuted"][:3]:
        print("     refuted", x["label"], "cut" if x["cut"] else "", x["detail"][:300], json.dumps(x["witness"])[:600], x["trace"][-6:])


def replay(pid, path):
    d = json.loads(Path(path).read_text())
    con = next(c for c in load_specs(pid) if c.name == d["contract"])
    w = {k: dec(v) for k, v in (d["witness"] or {}).items()}
    st, c, ex = conc_once(con, random.Random(0), w, {"int": [], "str": [], "float": []})
    print(f"{st}: {getattr(ex, 'label', ex)} {getattr(ex, 'detail', '')}")
    return 1 if st == "fail" else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
