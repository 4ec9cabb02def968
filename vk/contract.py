"""Contracts: requires / ensures / modifies / invariants over the real functions."""
import re
import time
import traceback

from . import sym, front
from .sym import (SArr, SView, SInt, SReal, SBool, SCplx, Unsupported, Skip, zb, zi, And, z3, kind)
from .front import NS


def _cut_while(self, key):
    return self.while_policy(key) if self.while_policy else False


sym.Engine.while_policy = None
sym.Engine.cut_while = _cut_while
sym.Engine.loop_key = lambda self, key: key
sym.Engine.objs = ()
sym.Engine.broad = False
RETRY = 90          # seconds
sym.Engine.params = {}
sym.Engine.np_sum_models = ()

_oldbegin = sym.Engine.begin


def _begin(self, prefix):
    _oldbegin(self, prefix)
    sym._bv[0] = 0
    self.params = {}
    self.objs = []
    self.sorters = []
    self.nsort = 0
    self.ring = None


sym.Engine.begin = _begin


class Ctx(NS):
    """parameters and result seen by requires/ensures (attribute access)"""


class Contract:
    """one function under contract.

    params   : [(name, spec)], spec like "int", "real", "int[n,5]", "cplx[n]"
    requires : f(p) -> formula or list of (label, formula)
    ensures  : f(p, old, res) -> list of (label, formula)
    modifies : names of array parameters the function may write
    result   : None | "int" | "real" | "arr spec" | tuple of specs; "int[?,4]": first
               dimension is a fresh symbol constrained by ensures
    invs     : [(name, f(L))]
    sums     : f(p) -> SumSet list
    """

    def __init__(self, name, params, requires=None, ensures=None, modifies=(), result=None,
                 invs=(), sums=None, callees=(), soft=None, while_cut=False, timeout=8000,
                 lemmas=None, pyth=False, np_sum=(), max_paths=3000, budget=240, stub_only=False,
                 doc="", ghost=None, cvc5=True, rewrite=False):
        self.rewrite = rewrite
        self.name, self.params = name, params
        self.requires, self.ensures = requires, ensures
        self.modifies, self.result = modifies, result
        self.invs, self.sums, self.callees = list(invs), sums, list(callees)
        self.soft = soft or {}
        self.while_cut, self.timeout, self.lemmas = while_cut, timeout, lemmas
        self.pyth, self.np_sum = pyth, np_sum
        self.max_paths, self.budget = max_paths, budget
        self.doc = doc
        self.ghost = ghost
        self.cvc5 = cvc5

    # ----- symbolic inputs
    def make_params(self, e):
        dims = {}

        def dim(d):
            d = d.strip()
            if d.isdigit():
                return int(d)
            if d not in dims:
                dims[d] = SInt(z3.Int("dim_" + d))
                e.assume(dims[d].e >= 0)
            return dims[d]
        vals = {}
        for n, spec in self.params:
            vals[n] = make_value(n, spec, dim, e)
        vals_ns = dict(vals)
        for d, v in dims.items():
            vals_ns.setdefault(d, v)
        return vals, vals_ns

    def _list(self, x, default):
        if x is None:
            return []
        if isinstance(x, list):
            return x
        return [(default, x)]

    # ----- verification
    def verify(self, ns, fn=None, registry=None):
        """-> Result; first with the invariants bound to the known local names, then (if that is
        not enough) with every local of matching type as a candidate"""
        r = self._verify(ns, fn, registry, False)
        if not r.proved and not self.invs and r.failed and all(o.status == "unknown" for o in r.failed) and r.wall < RETRY:
            t, self.timeout = self.timeout, 4 * self.timeout
            try:
                r = self._verify(ns, fn, registry, False)
            finally:
                self.timeout = t
        if r.proved or not self.invs:
            return r
        if r.unsupported and "time budget" in r.unsupported:
            return r
        r2 = self._verify(ns, fn, registry, True)
        if r2.proved:
            return r2
        if any(o.status == "unknown" for x in (r, r2) for o in x.failed) or r.weak or r2.weak:
            # something was not decided in time: once more with more time per query
            if r.wall + r2.wall < RETRY:
                t, self.timeout = self.timeout, 4 * self.timeout
                try:
                    r3 = self._verify(ns, fn, registry, False)
                finally:
                    self.timeout = t
                if r3.proved:
                    return r3
        for x in (r, r2):
            if x.weak:      # the counterexample may be due to a missing invariant
                for o in x.failed:
                    o.status = "unknown"
        return r if r.unsupported is None or r2.unsupported is not None else r2

    def _verify(self, ns, fn=None, registry=None, broad=False):
        registry = registry or {}
        saved = {}
        fn = fn or ns[self.name]
        for c in self.callees:
            k = registry[c]
            saved[c] = ns.get(c)
            ns[c] = k.stub(ns.get(c))
        e = sym.Engine(self.name, timeout_ms=self.timeout, max_paths=self.max_paths, use_cvc5=self.cvc5)
        e.soft_policy = dict(self.soft)
        e.rewrite = self.rewrite
        e.broad = broad
        e.invariants = self.invs
        e.trig_pyth = self.pyth
        e.np_sum_models = self.np_sum
        e.while_policy = (lambda key: self.while_cut) if not callable(self.while_cut) else self.while_cut
        e.deadline = time.time() + self.budget
        res = Result(self.name)
        t0 = time.time()
        try:
            if self.invs:
                e.dry = True
                for _ in range(6):
                    e.restart = False
                    e.explore(lambda en: self._run(en, fn))
                    if not e.restart:
                        break
                e.dry = False
            for rnd in range(40):
                if rnd > 12 + len(e.gdropped):
                    raise Unsupported("invariant iteration did not stabilise")
                e.restart = False
                e.obligations = {}
                e.cache = {} if rnd == 0 else e.cache
                e.reached_end = 0
                e.counts = {}
                e.bk = {}
                self.vac_checked = False
                outs = e.explore(lambda en: self._run(en, fn))
                if not e.restart:
                    break
            else:
                raise Unsupported("invariant iteration did not stabilise")
            res.obls = list(e.obligations.values())
            res.counts = dict(e.counts)
            res.backends = dict(e.bk)
            res.paths = len(outs)
            res.reached_end = e.reached_end
            res.dropped = sorted(e.dropped)
            res.weak = bool(e.weak & e.dropped)
            res.inv_seen = {k: sorted(v) for k, v in e.inv_seen.items()}
            res.assumed = {k: sorted(v) for k, v in e.soft_assumed.items()}
            if e.reached_end == 0:
                res.unsupported = "no path reaches the end of the function (vacuous)"
            res.vac = self.vac_result
            if self.vac_result is False:
                res.unsupported = "precondition unsatisfiable (vacuous)"
        except Unsupported as ex:
            res.unsupported = str(ex) or "unsupported"
        except (Skip,) as ex:
            res.unsupported = f"contract name not found: {ex}"
        except RecursionError:
            res.unsupported = "recursion"
        except z3.Z3Exception as ex:
            res.unsupported = f"solver: {ex}"
        except Exception as ex:      # noqa
            # Python raised on a symbolic path: the generator did not understand the code
            res.unsupported = f"{type(ex).__name__}: {ex}"
            res.trace = traceback.format_exc()[-1500:]
        finally:
            for c, v in saved.items():
                ns[c] = v
            sym.E = None
        res.solver_s = e.solver_s
        res.wall = time.time() - t0
        return res

    vac_result = None
    vac_checked = False

    def _run(self, e, fn):
        vals, pns = self.make_params(e)
        e.params = pns
        p = NS(pns)
        e.spec_depth += 1
        for lab, f in self._list(self.requires(p) if self.requires else None, "req"):
            e.assume(zb(f))
        if self.lemmas:
            for f in self.lemmas(p):
                e.assume(zb(f))
        e.sums = list(self.sums(p)) if self.sums else []
        e.spec_depth -= 1
        if not self.vac_checked and not e.dry:
            self.vac_checked = True
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*[f for f in e.pc])
            self.vac_result = (s.check() != z3.unsat)
        for s_ in e.sums:
            for a in s_.axioms_at_entry():
                e.assume(a)
        old = {k: (v.snapshot() if isinstance(v, SArr) else v) for k, v in pns.items()}
        e.old = old
        if self.ghost:
            self.ghost(e, p)
        args = [vals[n] for n, _ in self.params]
        result = fn(*args)
        e.spec_depth += 1
        try:
            ens = self._list(self.ensures(p, NS(old), result), "ens")
            frames = []
            for n, v in vals.items():
                if isinstance(v, SArr) and n not in self.modifies:
                    if any(a.get_id() != b.get_id() for a, b in zip(v.parts, old[n].parts)):
                        frames.append((f"frame:{n}", SBool(z3.And(*[a == b for a, b in
                                                                  zip(v.parts, old[n].parts)]))))
        finally:
            e.spec_depth -= 1
        for lab, f in ens + frames:
            e.oblige(zb(f), f"ensures {lab}", cls="ensures")

    # ----- call site view
    def stub(self, real):
        def call(*args, **kw):
            e = sym.E
            if e is None:
                return real(*args, **kw)
            vals = {}
            names = [n for n, _ in self.params]
            for n, a in zip(names, args):
                vals[n] = a
            for n, a in kw.items():
                vals[n] = a
            # dimension symbols
            pns = dict(vals)
            for n, spec in self.params:
                m = re.match(r"^\w+\[(.*)\]$", spec)
                if m:
                    for q, d in enumerate(m.group(1).split(",")):
                        d = d.strip()
                        if not d.isdigit():
                            pns.setdefault(d, vals[n].shape[q])
            p = NS(pns)
            e.spec_depth += 1
            try:
                reqs = self._list(self.requires(p) if self.requires else None, "req")
            finally:
                e.spec_depth -= 1
            for lab, f in reqs:
                e.oblige(zb(f), f"call {self.name} requires {lab}", cls="requires", soft="callreq")
            old = NS({k: (v.snapshot() if isinstance(v, (SArr, SView)) else v) for k, v in pns.items()})
            for n in self.modifies:
                a = vals[n]
                a.havoc(e.fresh_name(a.name.split("!")[0] + "#"))
                e.touch(a)
            r = self._fresh_result(e)
            e.spec_depth += 1
            try:
                for lab, f in self._list(self.ensures(p, old, r), "ens"):
                    e.assume(zb(f))
            finally:
                e.spec_depth -= 1
            return r
        return call

    def _fresh_result(self, e):
        def one(spec):
            if spec is None:
                return None

            def dim(d):
                d = d.strip()
                if d.isdigit():
                    return int(d)
                v = e.fresh("int", "rd")
                e.assume(v.e >= 0)
                return v
            return make_value(e.fresh_name("res_" + self.name), spec, dim, e)
        if isinstance(self.result, tuple):
            return tuple(one(s) for s in self.result)
        return one(self.result)


def make_value(n, spec, dim, e):
    m = re.match(r"^(\w+)\[(.*)\]$", spec)
    if m:
        shape = [dim(d) for d in m.group(2).split(",")]
        return SArr(m.group(1), shape, name=n)
    if spec == "cplx":
        return SCplx(z3.Real(n + ".re"), z3.Real(n + ".im"))
    return sym.mk(spec, z3.Const(n, sym._SORT[spec]()))


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.unsupported = None
        self.paths = 0
        self.reached_end = 0
        self.dropped = []
        self.weak = False
        self.inv_seen = {}
        self.assumed = {}
        self.backends = {}
        self.counts = {}
        self.solver_s = 0.0
        self.wall = 0.0
        self.trace = ""
        self.vac = None

    @property
    def failed(self):
        return [o for o in self.obls if o.status != "discharged" and not
                (o.cls == "inv")]

    @property
    def proved(self):
        return self.unsupported is None and not self.failed and bool(self.obls)

    def to_json(self):
        return {"function": self.name, "proved": self.proved, "unsupported": self.unsupported,
                "obligations": len(self.obls), "instances": sum(self.counts.values()),
                "discharged": sum(1 for o in self.obls if o.status == "discharged"),
                "failed": [{"label": o.label, "status": o.status, "backend": o.backend,
                            "detail": o.detail} for o in self.failed],
                "labels": sorted(o.label for o in self.obls),
                "paths": self.paths, "ends": self.reached_end, "backends": self.backends,
                "dropped": [f"{k} {n}" for k, n in self.dropped],
                "assumed": self.assumed, "solver_s": round(self.solver_s, 3), "wall_s": round(self.wall, 3),
                "trace": self.trace}


class Lemma:
    """pure statement: for all values of `params` requires => ensures"""

    def __init__(self, name, params, requires, ensures, timeout=10000, facts=None):
        self.name, self.params = name, params
        self.c = Contract("lemma " + name, params, requires=requires,
                          ensures=lambda p, o, r: ensures(p), timeout=timeout)

    def verify(self):
        return self.c.verify({}, fn=lambda *a: None)
