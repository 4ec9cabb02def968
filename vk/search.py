"""Bounded stand-in / counterexample search: contracts evaluated on the rebuilt real code."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

SRC = os.environ.get("VK_SRC", "")


class Violated(Exception):
    pass


def require(cond, msg):
    """contract clause; msg may be a thunk"""
    if not cond:
        raise Violated(msg() if callable(msg) else msg)


class Skip(Exception):
    """the case cannot be run against this tree"""


def run_one(fn, case, index, seed, tier):
    """-> None | detail ; raises on harness problems"""
    rng = np.random.default_rng([seed & 0xffffffff, zlib.crc32(case.encode()), index])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn(rng, index)
        return r
    except Violated as ex:
        return str(ex)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as ex:
        # exception on a legal input: a violation only if the code under test raised it
        tb = ex.__traceback__
        last = None
        while tb is not None:
            f = tb.tb_frame.f_code.co_filename
            if SRC and f.startswith(SRC):
                last = "code"
            elif f.endswith(".pyx") or "tbplas/" in f and not f.startswith("/verif"):
                last = "code"
            elif "/props/" in f or "/vk/" in f:
                last = "harness"
            tb = tb.tb_next
        if last == "code":
            return f"unexpected {type(ex).__name__}: {ex} | " + traceback.format_exc().strip()[-700:]
        raise


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--worker", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--one")
    ap.add_argument("--index", type=int, default=0)
    a = ap.parse_args()
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    mod = importlib.import_module("props." + a.pid.lower())
    cases = mod.CASES
    if a.one:
        fn = dict(cases)[a.one]
        r = run_one(fn, a.one, a.index, a.seed, a.tier)
        print(f"case {a.one} index {a.index} seed {a.seed}:", "holds" if r is None else "VIOLATED: " + r)
        return 1 if r is not None else 0
    import tbplas
    assert tbplas.__file__.startswith(SRC), tbplas.__file__
    st = {"cases": {}, "failures": [], "skipped": {}, "current": None}

    def dump():
        with open(a.out, "w") as f:
            json.dump(st, f)
    t0 = time.time()
    live = [(n, f) for n, f in cases if not a.only or n == a.only]
    idx = a.worker
    rounds = 0
    minr = getattr(mod, "MIN_ROUNDS", 3)
    while live and (time.time() - t0 < a.budget or rounds < minr):
        for n, f in list(live):
            st["current"] = {"case": n, "index": idx, "seed": a.seed, "detail": ""}
            dump()
            try:
                r = run_one(f, n, idx, a.seed, a.tier)
            except Exception as ex:
                st["skipped"][n] = f"{type(ex).__name__}: {ex} " + traceback.format_exc()[-400:]
                live = [(m, g) for m, g in live if m != n]
                continue
            st["cases"][n] = st["cases"].get(n, 0) + 1
            if r == "exhausted":
                live = [(m, g) for m, g in live if m != n]
                continue
            if r is not None:
                st["failures"].append({"case": n, "index": idx, "seed": a.seed, "detail": str(r)[:1500]})
                live = [(m, g) for m, g in live if m != n]
            if time.time() - t0 > 3 * a.budget + 60:
                live = []
                break
        idx += a.jobs
        rounds += 1
    st["current"] = None
    dump()
    return 0


if __name__ == "__main__":
    from vk.search import main as _main      # one identity of Violated
    sys.exit(_main())
