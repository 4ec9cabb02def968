"""Front ends: mechanical rewriting of the real source into executable,
loop-instrumented Python.  Nothing is hand copied: the text is read from the
repository on every run.

What the extraction drops
  * Cython: static types of locals (kept as metadata), memoryview layout,
    `@cython.*` decorators (cdivision switches // and % to C semantics),
    `cimport` lines (libc.math names become the engine's functions).
  * both: doc strings stay, `for`/`while` headers are wrapped by the loop
    cutter, nothing else is changed.
"""
import ast
import builtins
import io
import re
import tokenize
import types

from . import sym
from .sym import (SArr, SView, SInt, SReal, SBool, SCplx, Unsupported, PathEnd,
                  Skip, zi, zr, zb, zc, kind, _const, And, z3)


# ---------------------------------------------------------------- Cython
_CT = r"(?:unsigned\s+|signed\s+)?(?:double\s+complex|float\s+complex|long\s+long|int|long|double|float|complex|bint|void|object|str|list|tuple|dict|Py_ssize_t|size_t|char)"


def _strip_type(arg):
    """'double [:,::1] ham' -> ('ham', 'double[2]')"""
    arg = arg.strip()
    if not arg:
        return None
    default = ""
    if "=" in arg:
        arg, default = arg.split("=", 1)
        default = "=" + default
    m = re.match(rf"^(?:const\s+)?({_CT})\s*(\[[^\]]*\])?\s*(\*?)\s*([A-Za-z_]\w*)\s*$", arg.strip())
    if m:
        t = re.sub(r"\s+", " ", m.group(1))
        nd = m.group(2).count(":") if m.group(2) else 0
        if m.group(2):
            nd = len(m.group(2).strip("[]").split(","))
        return m.group(4) + default, (t, nd)
    return arg.strip() + default, None


def _split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        if ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _logical_lines(text):
    """(start, end) physical line ranges of logical lines that begin with def/cdef/cpdef"""
    lines = text.split("\n")
    i = 0
    in_doc = None
    while i < len(lines):
        ln = lines[i]
        if in_doc:
            if in_doc in ln:
                in_doc = None
            yield i, i + 1, [ln], True
            i += 1
            continue
        st = ln.strip()
        m = re.match(r'^[rRuU]?("""|\'\'\')', st)
        if m:
            q = m.group(1)
            rest = st[m.end():]
            if q not in rest:
                in_doc = q
            yield i, i + 1, [ln], True
            i += 1
            continue
        j = i
        depth = 0
        buf = []
        while True:
            cur = lines[j]
            code = _strip_comment(cur)
            depth += sum(code.count(c) for c in "([{") - sum(code.count(c) for c in ")]}")
            buf.append(cur)
            if depth > 0 or code.rstrip().endswith("\\"):
                j += 1
                if j >= len(lines):
                    break
                continue
            break
        yield i, j + 1, buf, False
        i = j + 1


def _strip_comment(s):
    q = None
    for k, ch in enumerate(s):
        if q:
            if ch == q:
                q = None
        elif ch in "\"'":
            q = ch
        elif ch == "#":
            return s[:k]
    return s


def pyx_to_py(text):
    """-> (python source, meta) ; meta[func] = {'args': {name: type}, 'locals': {...}, 'cdivision': bool}"""
    out = []
    meta = {}
    cur = None
    pend_cdiv = False
    glob_cdiv = bool(re.search(r"^#\s*cython:.*cdivision\s*=\s*True", text, re.M))
    for i, j, buf, doc in _logical_lines(text):
        if doc:
            out.extend(buf)
            continue
        raw = "\n".join(buf)
        flat = " ".join(_strip_comment(b).rstrip().rstrip("\\") for b in buf)
        st = flat.strip()
        ind = re.match(r"^\s*", buf[0]).group(0)
        if st.startswith("@cython."):
            if re.search(r"cdivision\s*\(\s*True", st):
                pend_cdiv = True
            out.append(ind + "# " + st)
            out.extend([""] * (len(buf) - 1))
            continue
        if re.match(r"^(from\s+\S+\s+)?cimport\b", st) or re.match(r"^from\s+\S+\s+cimport\b", st) or st == "import cython":
            out.append(ind + "pass")
            continue
        m = re.match(r"^(def|cdef|cpdef)\s+(?:inline\s+)?(.*?)([A-Za-z_]\w*)\s*\((.*)\)\s*(?:noexcept|nogil|except[^:]*|->[^:]*|\s)*:\s*(.*)$", st)
        if m and (m.group(1) == "def" and not m.group(2).strip() or
                  m.group(1) != "def" and (not m.group(2).strip() or
                                           re.match(rf"^{_CT}\s*(\[[^\]]*\])?\s*$", m.group(2).strip()))):
            name = m.group(3)
            args, tps = [], {}
            for a in _split_args(m.group(4)):
                r = _strip_type(a)
                if r is None:
                    continue
                args.append(r[0])
                if r[1]:
                    tps[r[0].split("=")[0]] = r[1]
            if not ind:
                meta[name] = {"args": tps, "locals": {}, "cdivision": pend_cdiv or glob_cdiv,
                              "ret": m.group(2).strip()}
                cur = name
                pend_cdiv = False
            out.append(f"{ind}def {name}({', '.join(args)}): {m.group(5)}")
            out.extend([""] * (len(buf) - 1))
            continue
        m = re.match(rf"^cdef\s+(?:const\s+)?({_CT})\s*(\[[^\]]*\])?\s+(.*)$", st) or \
            re.match(rf"^cdef\s+(?:const\s+)?({_CT})\s*(\[[^\]]*\])\s*(.*)$", st)
        if m:
            stm = []
            nd = len(m.group(2).strip("[]").split(",")) if m.group(2) else 0
            for d in _split_args(m.group(3)):
                d = d.strip()
                nm = d.split("=")[0].strip().lstrip("*")
                if cur:
                    meta[cur]["locals"][nm] = (re.sub(r"\s+", " ", m.group(1)), nd)
                if "=" in d:
                    stm.append(d)
            out.append(ind + ("; ".join(stm) if stm else "pass"))
            out.extend([""] * (len(buf) - 1))
            continue
        if st.startswith("cdef ") or st.startswith("ctypedef "):
            raise Unsupported(f"cython construct: {st[:60]}")
        raw = re.sub(r"<\s*(double|float)\s*>\s*", "1.0*", raw)
        raw = re.sub(r"<\s*(?:int|long)\s*>\s*([A-Za-z_]\w*\s*\()", r"__cint__(\1", raw) if False else raw
        if re.search(rf"<\s*{_CT}\s*>", _strip_comment(raw)):
            raw = re.sub(rf"<\s*(?:int|long)\s*>\s*([A-Za-z_][\w\.]*(?:\[[^\]]*\])?|\([^()]*\))", r"__cint__(\1)", raw)
            raw = re.sub(rf"<\s*(?:double complex|complex)\s*>\s*", "", raw)
        out.extend(raw.split("\n"))
    return "\n".join(out), meta


# ---------------------------------------------------------------- loop cutter
class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp


class LoopCutter(ast.NodeTransformer):
    """see Loop"""

    def __init__(self, cdiv=()):
        self.stack = []
        self.n = 0
        self.cdiv = set(cdiv)
        self.vars = {}

    def visit_FunctionDef(self, node):
        self.stack.append((node.name, self.n))
        self.n = 0
        node.body = [self.visit(s) for s in node.body]
        node.body = _flat(node.body)
        # global names stay global
        self.n = self.stack.pop()[1]
        return node

    def visit_ClassDef(self, node):
        node.body = _flat([self.visit(s) for s in node.body])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.stack and self.stack[-1][0] in self.cdiv:
            if isinstance(node.op, ast.FloorDiv):
                return ast.copy_location(_call("__cdiv__", [node.left, node.right]), node)
            if isinstance(node.op, ast.Mod):
                return ast.copy_location(_call("__cmod__", [node.left, node.right]), node)
        return node

    def _wrap(self, node, iterable, is_while):
        if not self.stack:
            return node
        key = f"{self.stack[-1][0]}#{self.n}"
        self.n += 1
        a = _Assigned()
        for s in node.body:
            a.visit(s)
        if not is_while:
            a.visit(node.target)
        names = sorted(n for n in a.names if not n.startswith("__L"))
        lv = f"__L{self.n}_{len(self.stack)}"
        if node.orelse:
            return node if not is_while else node
        body = list(node.body)
        if is_while:
            test = node.test
            guard = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test),
                           body=[ast.Break()], orelse=[])
            body = [guard] + body
            target = ast.Name(id=f"{lv}_w", ctx=ast.Store())
            itexp = ast.Constant(None)
            isconst = isinstance(test, ast.Constant)
        else:
            target = node.target
            itexp = iterable
        body = _flat([self.visit(s) for s in body])
        if not is_while:
            itexp = self.visit(itexp)
        hav = ast.Call(func=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr="havoc",
                                          ctx=ast.Load()), args=[], keywords=[])
        res = []
        tgt = target.id if isinstance(target, ast.Name) else None
        res.append(ast.Assign(targets=[ast.Name(id=lv, ctx=ast.Store())],
                              value=_call("__vcloop__", [ast.Constant(key), itexp, _call("locals", []),
                                                         ast.Constant(tuple(names)), ast.Constant(is_while),
                                                         ast.Constant(tgt)])))
        if names:
            res.append(ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store()) for n in names],
                                                     ctx=ast.Store())], value=hav))
        else:
            res.append(ast.Expr(value=hav))
        end = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr="end",
                                                         ctx=ast.Load()), args=[_call("locals", [])], keywords=[]))
        loop = ast.For(target=target,
                       iter=ast.Call(func=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr="iter",
                                                        ctx=ast.Load()), args=[], keywords=[]),
                       body=body, orelse=[end])
        res.append(loop)
        # unbound sentinels must not leak as ordinary values
        for r in res:
            ast.copy_location(r, node)
            ast.fix_missing_locations(r)
        return res

    def visit_For(self, node):
        return self._wrap(node, node.iter, False)

    def visit_While(self, node):
        return self._wrap(node, None, True)

    def visit_ListComp(self, node):
        """[elt for t1 in it1 (for t2 in it2)] -> __lc__(...), the same list for concrete iterables"""
        self.generic_visit(node)
        gs = node.generators
        if not self.stack or any(g.ifs or g.is_async for g in gs):
            return node

        def params(t):
            if isinstance(t, ast.Name):
                return [t.id], False
            if isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
                return [x.id for x in t.elts], True
            return None, None

        def lam(ps, body):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in ps],
                                                 kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        pp = [params(g.target) for g in gs]
        if any(x[0] is None for x in pp) or any(len(set(x[0])) != len(x[0]) for x in pp):
            return node
        def build(k):
            if k == len(gs) - 1:
                return _call("__lc__", [gs[k].iter, lam(pp[k][0], node.elt), ast.Constant(pp[k][1])])
            if k == len(gs) - 2:
                return _call("__lc2__", [gs[k].iter, lam(pp[k][0], gs[k + 1].iter), ast.Constant(pp[k][1]),
                                         lam(pp[k][0], lam(pp[k + 1][0], node.elt)), ast.Constant(pp[k + 1][1])])
            ident = lam(["vk_y"], ast.Name(id="vk_y", ctx=ast.Load()))
            return _call("__lc2__", [gs[k].iter, lam(pp[k][0], build(k + 1)), ast.Constant(pp[k][1]),
                                     lam(pp[k][0], ident), ast.Constant(False)])
        new = build(0)
        ast.copy_location(new, node)
        ast.fix_missing_locations(new)
        return new

    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = _flat([self.visit(s) for s in node.body])
        node.orelse = _flat([self.visit(s) for s in node.orelse])
        return node


def _ap(f, x, star):
    return f(*x) if star else f(x)


def lc(it, f, star):
    if hasattr(it, "vk_map"):
        return it.vk_map(lambda x: _ap(f, x, star))
    return [_ap(f, x, star) for x in it]


def lc2(it, it2, star, f, star2):
    if hasattr(it, "vk_flatmap"):
        return it.vk_flatmap(lambda x: _ap(it2, x, star), lambda x, y: _ap(_ap(f, x, star), y, star2))
    return [_ap(_ap(f, x, star), y, star2) for x in it for y in _ap(it2, x, star)]


def _call(f, args):
    return ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=args, keywords=[])


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


_KORD = ["bool", "int", "real", "cplx"]


class Unbound:
    def __init__(self, n):
        self._n = n

    def _f(self, *a, **k):
        raise Unsupported(f"use of a loop-local value {self._n} outside its iteration")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = __setitem__ = _f
    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __call__ = __iter__ = __len__ = _f
    __neg__ = __truediv__ = __floordiv__ = __mod__ = __index__ = __int__ = __float__ = _f
    __hash__ = None


class SRange:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step
        if not isinstance(step, int) or step == 0:
            c = _const(zi(step))
            if c is None or c == 0:
                raise Unsupported("symbolic range step")
            self.step = c

    def count(self):
        a, b, s = self.a, self.b, self.step
        d = (b - a) if s > 0 else (a - b)
        s = abs(s)
        n = d if s == 1 else (d + (s - 1)) // s
        return sym.ite(sym.SBool(zi(d) > 0), n, 0)

    def at(self, it):
        return self.a + it * self.step

    def __contains__(self, x):
        if self.step != 1 or kind(x) != "int":
            raise Unsupported("membership in a symbolic range")
        return sym.eng().fork(z3.And(zi(x) >= zi(self.a), zi(x) < zi(self.b)))


class NS:
    """name space given to invariants / contracts"""

    def __init__(self, d):
        self.__dict__["_d"] = d

    def __getattr__(self, n):
        d = self.__dict__["_d"]
        if n in d:
            v = d[n]
            if isinstance(v, Unbound):
                raise Skip(n)
            return v
        raise Skip(n)

    def has(self, n):
        return n in self._d and not isinstance(self._d[n], Unbound)


def _ax(f, *a):
    sym.E.spec_depth += 1
    try:
        return f(*a)
    finally:
        sym.E.spec_depth -= 1


class Loop:
    def __init__(self, key, iterable, loc, names, is_while, tgt=None):
        self.tgt = tgt
        self.E = sym.E
        self.key, self.names, self.is_while = key, names, is_while
        self.loc = dict(loc)
        self.iterable = iterable
        self.mode = "concrete"
        e = self.E
        if is_while:
            self.symbolic = e is not None and e.cut_while(key)
        else:
            if isinstance(iterable, SymIter):
                self.symbolic = True
            elif isinstance(iterable, SRange):
                n = _const(z3.simplify(zi(iterable.count())))
                if n is not None and n <= 64:
                    self.symbolic = False
                    self.iterable = [iterable.at(i) for i in range(n)]
                else:
                    self.symbolic = True
            else:
                self.symbolic = False
        if self.symbolic:
            if e is None:
                raise Unsupported("symbolic loop outside the engine")
            # unique dynamic instance key: call chain + static key
            self.dkey = e.loop_key(key)
            self._enter()

    # -- symbolic part
    def ns(self, loc, it):
        d = {k: getattr(v, "vk_arr", v) for k, v in loc.items() if not k.startswith("__L")}
        d["it"] = it
        if not self.is_while:
            d["n"] = self.n
            d["loopvar"] = self.value(it)
            d["seq"] = self.iterable
        d["pre"] = NS(self.pre)
        d["old"] = NS(self.E.old)
        d["params"] = NS(self.E.params)
        d["outer"] = [lp for lp in self.E.loops if lp is not self]
        d["depth"] = len([lp for lp in self.E.loops if lp is not self])
        d["key"] = self.key
        d["mod"] = [n for n in self.names if n in loc and n != self.tgt]
        d["loop"] = self
        for k, v in self.E.params.items():
            d.setdefault(k, v)
        return NS(d)

    def value(self, it):
        return self.iterable.at(it)

    def _pool(self, loc, it):
        e = self.E
        out, groups = [], set()
        self.strong = {}
        for nm, fn in e.invariants:
            if (self.dkey, nm) in e.dropped:
                continue
            try:
                e.spec_depth += 1
                r = fn(self.ns(loc, it))
            except (Skip, AttributeError, KeyError, IndexError, TypeError) as ex:
                continue
            finally:
                e.spec_depth -= 1
            if r is None:
                continue
            if isinstance(r, dict):
                items = [(f"{nm}.{q}", f) for q, f in r.items()]
            elif isinstance(r, list):
                items = [(f"{nm}.{q}", f) for q, f in enumerate(r)]
            else:
                items = [(nm, r)]
            for lab, f in items:
                if f is None:
                    continue
                if (self.dkey, lab) in e.dropped:
                    continue
                z = zb(f)
                st = getattr(f, "strong", None)
                self.strong[lab] = st
                g = st[1] if st else None
                if g is not None:
                    if g in groups:
                        continue
                    groups.add(g)
                if self.entry_labels is not None and lab not in self.entry_labels:
                    continue
                out.append((lab, z))
        return out

    def _auto(self, loc, it):
        """built-in candidates: counters that advance by one per iteration"""
        e = self.E
        out = []
        if not e.broad:
            return out
        for n in self.names:
            if n in self.autocand and n in loc and kind(loc[n]) == "int":
                x0 = self.pre[n]
                for nm, f in ((f"auto:{n}=pre+it", loc[n] == x0 + it),
                              (f"auto:{n}>=pre", loc[n] >= x0),
                              (f"auto:{n}<=pre+it", loc[n] <= x0 + it)):
                    if (self.dkey, nm) not in e.dropped:
                        out.append((nm, zb(f)))
        return out

    def _check(self, loc, it, phase):
        e = self.E
        if e.dry:
            return
        for lab, f in self._auto(loc, it) + self._pool(loc, it):
            e.inv_seen.setdefault(self.dkey, set()).add(lab)

            def fail(lab=lab, f=f):
                e.dropped.add((self.dkey, lab))
                if e.last_status == "unknown":
                    e.weak.add((self.dkey, lab))
                e.restart = True
                if self.strong.get(lab) and self.strong[lab][1] is not None:
                    # the next alternative of the group: what was dropped because of this one is tried again
                    e.gdropped.add((self.dkey, lab))
                    e.dropped.clear()
                    e.dropped.update(e.gdropped)
                    if sym.DEBUG:
                        print("alternative", self.dkey, lab, phase, flush=True)
                    raise sym.RestartNow()
                if sym.DEBUG:
                    print("dropped", self.dkey, lab, phase, flush=True)
            if e.oblige(f, f"inv {self.dkey} {lab} [{phase}]", cls="inv", on_fail=fail) and ".lem" in lab \
                    and not e.replaying():
                e.assume(f)          # discharged just above: may be used by the following obligations

    def _enter(self):
        e = self.E
        loc = self.loc
        self.pre = {k: (v.snapshot() if isinstance(v, (SArr,)) else v)
                    for k, v in ((k, getattr(v, "vk_arr", v)) for k, v in loc.items()) if not k.startswith("__L")}
        self.narr = len(e.arrays)
        self.touched = set()
        self.autocand = {n for n in self.names if n in loc and kind(loc[n]) == "int"
                         and not isinstance(loc[n], bool) and n != self.tgt}
        if not self.is_while:
            self.n = self.iterable.count()
        for s in e.sums:
            for a in _ax(s.axioms_at_entry):
                e.assume(a)
        self.entry_labels = None
        self.entry_labels = {lab for lab, _ in self._pool(loc, 0)}
        self._check(loc, 0, "entry")
        # havoc
        self.it = e.fresh("int", "it_" + self.key.split("#")[0][:12])
        e.assume(self.it.e >= 0)
        mods = e.loop_mods.get(self.dkey, set())
        for aid in sorted(mods):
            if aid < len(e.arrays):
                a = e.arrays[aid]
                a.havoc(e.fresh_name(a.name.split("!")[0] + "@"))
                for lp in e.loops:
                    if aid < lp.narr:
                        lp.touched.add(aid)
        self.hav = []
        newloc = dict(loc)
        refs = self._refs(loc)
        for n in self.names:
            if n in refs:
                v = refs[n]
            elif n in loc and not isinstance(loc[n], Unbound):
                v = self._havoc_val(n, loc[n])
            else:
                v = Unbound(n)
            self.hav.append(v)
            newloc[n] = v
        for o in e.objs:
            o.havoc_at_loop(self)
        if not self.is_while:
            nz = zi(self.n)
            e.assume(self.it.e <= nz)
        # assume the invariants
        for lab, f in [] if e.dry else self._auto(newloc, self.it) + self._pool(newloc, self.it):
            e.assume(f)
            st = self.strong.get(lab)
            if st is not None:
                st[0]()          # `store = expression`: the expression replaces the havoced contents
        if not self.is_while:
            if e.choose(2) == 0:
                self.mode = "body"
                e.assume(self.it.e < zi(self.n))
                for s in e.sums:
                    for a in _ax(s.axioms_at_body, self):
                        e.assume(a)
            else:
                self.mode = "exit"
                e.assume(self.it.e == zi(self.n))
            if not e.replaying() and not e.feasible(z3.BoolVal(True)):
                raise sym.Infeasible()
        else:
            self.mode = "body"
        self.newloc = newloc

    def _ptrs(self, loc):
        return tuple((n, loc[n].aid) for n in self.names if n in loc and getattr(loc[n], "vk_store", False))

    def _refs(self, loc):
        """pointers that the loop redirects: at the head they are in one of the configurations seen so far (at entry or
        at the end of a body); a new configuration at the end of a body restarts the exploration"""
        e = self.E
        now = self._ptrs(loc)
        if not now:
            return {}
        seen = e.ptr_seen.setdefault(self.dkey, [])
        if now not in seen:
            e.restart = e.restart or bool(seen)
            seen.append(now)
        self.ptr_names = [n for n, _ in now]
        c = seen[e.choose(len(seen))] if len(seen) > 1 else seen[0]
        return {n: e.arrays[a] for n, a in c}

    def _havoc_val(self, n, v):
        e = self.E
        k = kind(v)
        w = e.loop_kinds.get((self.dkey, n))
        if w == "unbound":
            return Unbound(n)
        if w is not None and k is not None:
            k = max(k, w, key=_KORD.index)
        if isinstance(v, (SArr, SView)):
            return v          # reference kept; contents havoced if touched
        if k is not None:
            return e.fresh(k, n + "@")
        if isinstance(v, tuple):
            return tuple(self._havoc_val(n, x) for x in v)
        if v is None or isinstance(v, (str, types.FunctionType)):
            return Unbound(n)
        if hasattr(v, "havoc_value"):
            return v.havoc_value(n)
        return Unbound(n)

    # -- protocol used by the rewritten source
    def havoc(self):
        if not self.symbolic:
            return tuple(self.loc.get(n, Unbound(n)) for n in self.names)
        return tuple(self.hav)

    def iter(self):
        if not self.symbolic:
            if self.is_while:
                def gen():
                    k = 0
                    while True:
                        k += 1
                        if k > 2000:
                            raise Unsupported("while loop unrolled too far")
                        yield k
                return gen()
            return iter(self.iterable)
        return self._symiter()

    def _symiter(self):
        e = self.E
        if self.mode == "exit":
            return
        e.loops.append(self)
        try:
            v = self.it if self.is_while else self.value(self.it)
            yield v
        finally:
            if self in e.loops:
                e.loops.remove(self)

    def end(self, loc):
        if not self.symbolic or self.mode == "exit":
            return
        e = self.E
        it1 = e.fresh("int", "itn")
        e.assume(it1.e == self.it.e + 1)
        for s in e.sums:
            for a in _ax(s.axioms_at_step, self, self.it, it1):
                e.assume(a)
        # arrays written although not havoced at the head -> restart
        mods = e.loop_mods.setdefault(self.dkey, set())
        extra = self.touched - mods
        if extra:
            mods |= extra
            e.restart = True
            raise PathEnd()
        if getattr(self, "ptr_names", None):
            now = tuple((n, loc[n].aid) for n in self.ptr_names if getattr(loc.get(n), "vk_store", False))
            if len(now) != len(self.ptr_names):
                raise Unsupported("pointer loses its target")
            if now not in e.ptr_seen[self.dkey]:
                e.ptr_seen[self.dkey].append(now)
                e.restart = True
                raise PathEnd()
        # locals whose type widens in the body (x = 0.0; x += 1j) or that are bound to other objects
        wide = False
        for n in self.names:
            h, v = self.newloc.get(n), loc.get(n)
            if isinstance(h, Unbound) or n == self.tgt:
                continue
            kh, kv = kind(h), kind(v)
            if kh is not None:
                w = "unbound" if kv is None else None if _KORD.index(kv) <= _KORD.index(kh) else kv
            elif isinstance(h, tuple):
                w = "unbound" if not isinstance(v, tuple) or [kind(x) for x in h] != [kind(x) for x in v] else None
            else:
                w = "unbound" if isinstance(h, (SArr, SView)) and h is not v else None
            if w is not None:
                e.loop_kinds[self.dkey, n] = w
                wide = True
        if wide:
            e.dropped.clear()
            e.restart = True
            raise PathEnd()
        self._check(loc, it1, "step")
        raise PathEnd()


def int_locals(L, prefer=()):
    """integer locals modified by the loop, by name.  `prefer`: names in the current source;
    when one of them is in scope only those are proposed (other names are tried when the first
    attempt fails, so that renaming a local does not matter)"""
    d = {n: getattr(L, n) for n in L.mod if L.has(n) and kind(getattr(L, n)) == "int"}
    if prefer and not sym.E.broad and any(n in d for n in prefer):
        return {n: v for n, v in d.items() if n in prefer}
    return d


def arr_locals(L, k, nd, prefer=()):
    """arrays in scope that are not parameters, by name"""
    par = {id(v) for v in L.params._d.values()}
    d = {n: v for n, v in L._d.items() if isinstance(v, SArr) and v.k == k and v.nd == nd
         and id(v) not in par and not n.startswith("__")}
    if prefer and not sym.E.broad and any(n in d for n in prefer):
        return {n: v for n, v in d.items() if n in prefer}
    return d


def iters(L, depth):
    """iteration counters of the enclosing loops and this one, padded with zeros"""
    r = [lp.it for lp in L.outer] + [L.it]
    if len(r) > depth:
        raise Skip("depth")
    return r + [0] * (depth - len(r))


class SymIter:
    """base class of symbolic iterables (count(), at(it))"""


class SumBase:
    def axioms_at_entry(self):
        return []

    def axioms_at_body(self, loop):
        return []

    def axioms_at_step(self, loop, it, it1):
        return []


class SumSet(SumBase):
    """RecFn collection that is unfolded along the loops of the verified function"""

    def __init__(self, fns, when=None):
        self.fns = fns
        self.when = when

    def axioms_at_entry(self):
        return [zb(f.ax0()) for f in self.fns]

    def axioms_at_step(self, loop, it, it1):
        if self.when and not self.when(loop):
            return []
        return [zb(f.unfold(it, it1)) for f in self.fns]


# ---------------------------------------------------------------- shims
def srange(*a):
    if not any(isinstance(x, (SInt, SReal)) for x in a):
        return range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    return SRange(*a)


def slen(x):
    if isinstance(x, (SArr, SView)):
        return x.shape[0]
    if hasattr(x, "sym_len"):
        return x.sym_len()
    return len(x)


def sint(x=0, *a):
    if isinstance(x, (SInt,)):
        return x
    if isinstance(x, SReal):
        if z3.is_to_real(x.e):
            return SInt(x.e.arg(0))
        e = x.e
        fl = z3.ToInt(e)
        return SInt(z3.If(e >= 0, fl, -z3.ToInt(-e)))
    if isinstance(x, SBool):
        return SInt(zi(x))
    return int(x, *a)


def sfloat(x=0.0):
    if isinstance(x, (SInt, SReal, SBool)):
        return SReal(zr(x))
    return float(x)


def scomplex(a=0, b=0):
    if sym.is_sym(a) or sym.is_sym(b):
        return a + _I * b
    return complex(a, b)


_I = SCplx(z3.RealVal(0), z3.RealVal(1))


def sisinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, SInt):
        return any(q in (int,) or getattr(q, "__name__", "") in ("int", "Integral", "Number") for q in ts)
    if isinstance(x, SReal):
        return any(getattr(q, "__name__", "") in ("float", "Number", "Real") for q in ts)
    if isinstance(x, SCplx):
        return any(getattr(q, "__name__", "") in ("complex", "Number", "Complex") for q in ts)
    if isinstance(x, (SArr, SView)) or type(x).__name__ == "SRows":
        return any(getattr(q, "__name__", "") == "ndarray" for q in ts)
    return isinstance(x, t)


def sabs(x):
    return abs(x)


def cdiv(a, b):
    if sym.is_sym(a) or sym.is_sym(b):
        return SInt(sym.itrunc(zi(a), zi(b)))
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


def cmod(a, b):
    return a - b * cdiv(a, b)


def sjoin(it):
    return it


def sort_fns(depth, k=1):
    """(F, G): permutation returned by the k-th argsort of an iteration of a loop nest of the
    given depth, and its inverse; arguments: iteration counters, position"""
    dom = [z3.IntSort()] * (depth + 2)
    return z3.Function(f"sortF{depth}_{k}", *dom), z3.Function(f"sortG{depth}_{k}", *dom)


class NPShim:
    """the few numpy calls the kernels make, on symbolic arrays"""

    def __init__(self):
        import numpy
        self._np = numpy
        self.linalg = numpy.linalg

    def __getattr__(self, n):
        return getattr(self._np, n)

    @staticmethod
    def _shape(s):
        if isinstance(s, (tuple, list)):
            return tuple(s)
        return (s,)

    def _alloc(self, shape, dtype, zero=True):
        if sym.E is None:
            return self._np.zeros(shape, dtype=dtype or float)
        return SArr(sym.kind_of_dtype(dtype), self._shape(shape), zero=zero, dtype=dtype)

    def zeros(self, shape, dtype=None):
        return self._alloc(shape, dtype)

    def empty(self, shape, dtype=None):
        return self._alloc(shape, dtype, zero=False)

    def asarray(self, x, dtype=None):
        return x

    def ascontiguousarray(self, x, dtype=None):
        return x

    def prod(self, x, **k):
        if isinstance(x, (SArr, SView)):
            r = 1
            for v in x:
                r = r * v
            return r
        return self._np.prod(x, **k)

    def sum(self, x, **k):
        e = sym.E
        if e is not None and isinstance(x, (SArr,)):
            for f in e.np_sum_models:
                r = f(x)
                if r is not None:
                    return r
            raise Unsupported("np.sum without a model")
        return self._np.sum(x, **k)

    def max(self, x, **k):
        """assumed contract of numpy.max on a 1-d array: an upper bound that is attained"""
        if isinstance(x, SArr) and x.nd == 1 and not k:
            e = sym.E
            e.oblige(zb(x.shape[0] > 0), "np.max of a non-empty array", soft="bounds")
            r, w = e.fresh(x.k, "max"), e.fresh("int", "argmax")
            e.assume(zb(sym.fa([(0, x.shape[0])], lambda i: x[i] <= r)))
            e.spec_depth += 1
            e.assume(zb(sym.And(0 <= w, w < x.shape[0], x[w] == r)))
            e.spec_depth -= 1
            return r
        return self._np.max(x, **k)
    amax = max

    def copy(self, x):
        return x.copy() if isinstance(x, (SArr, SView)) else self._np.copy(x)

    def argsort(self, x, **k):
        """assumed contract of numpy.argsort on a 1-d array: a permutation that sorts"""
        if not isinstance(x, SArr):
            return self._np.argsort(x, **k)
        e = sym.E
        n = x.shape[0]
        its = [lp.it for lp in e.loops]
        lp = e.loops[-1] if e.loops else e
        lp.nsort = getattr(lp, "nsort", 0) + 1
        F, G = sort_fns(len(its), lp.nsort)
        f = lambda k: SInt(F(*[zi(q) for q in its], zi(k)))
        g = lambda k: SInt(G(*[zi(q) for q in its], zi(k)))
        e.sorters = getattr(e, "sorters", []) + [(f, g, n)]
        r = SArr("int", (n,), name=e.fresh_name("argsort"))
        xs = x.snapshot()
        fa = sym.fa
        rd = lambda a, k: a.get((zi(k),))
        e.assume(zb(fa([(0, n)], lambda k: rd(r, k) == f(k), pats=lambda k: rd(r, k))))
        e.assume(zb(fa([(0, n)], lambda k: sym.And(0 <= f(k), f(k) < n, g(f(k)) == k), pats=lambda k: f(k))))
        e.assume(zb(fa([(0, n)], lambda k: sym.And(0 <= g(k), g(k) < n, f(g(k)) == k), pats=lambda k: g(k))))
        e.assume(zb(fa([(0, n), (0, n)], lambda a, b: sym.imp(a <= b, rd(xs, f(a)) <= rd(xs, f(b))),
                       pats=lambda a, b: (f(a), f(b)))))
        return r

    def cos(self, x):
        return sym.fcos(x) if sym.is_sym(x) else self._np.cos(x)

    def sin(self, x):
        return sym.fsin(x) if sym.is_sym(x) else self._np.sin(x)

    def exp(self, x):
        return sym.fexp(x) if sym.is_sym(x) else self._np.exp(x)

    def sqrt(self, x):
        return msqrt(x)

    def abs(self, x):
        return abs(x) if sym.is_sym(x) else self._np.abs(x)
    absolute = abs

    def conj(self, x):
        return x.conjugate() if sym.is_sym(x) else self._np.conj(x)
    conjugate = conj


def msqrt(x):
    if sym.is_sym(x):
        return sym.fsqrt(x)
    if sym.E is not None and kind(x) in ("int", "real"):
        return sym.fsqrt(SReal(zr(x)))
    import math
    return math.sqrt(x)


def c_math():
    def w(f, g):
        return lambda x: f(x) if sym.is_sym(x) else (f(SReal(zr(x))) if sym.E is not None else g(x))
    import math
    return {"cos": w(sym.fcos, math.cos), "sin": w(sym.fsin, math.sin), "sqrt": msqrt,
            "exp": w(sym.fexp, math.exp), "pi": sym.PI}


def make_builtins():
    b = dict(vars(builtins))
    b.update(tuple=_TupleShim, enumerate=senumerate, sorted=ssorted, set=_SetShim)
    b.update(range=srange, len=slen, int=_IntShim, float=_FloatShim, complex=scomplex, isinstance=sisinstance)
    return b


class _Meta(type):
    def __instancecheck__(cls, x):
        return sisinstance(x, cls._t)

    def __eq__(cls, o):
        return o is cls or o is cls._t

    def __hash__(cls):
        return hash(cls._t)


def senumerate(x, start=0):
    return x.vk_enumerate(start) if hasattr(x, "vk_enumerate") else enumerate(x, start)


def ssorted(x, **k):
    return x.vk_sorted(**k) if hasattr(x, "vk_sorted") else sorted(x, **k)


class _TupleShim(metaclass=_Meta):
    _t = tuple
    __name__ = "tuple"

    def __new__(cls, *a):
        if a and hasattr(a[0], "vk_tuple"):
            return a[0].vk_tuple()
        return tuple(*a)


class _SetShim(metaclass=_Meta):
    _t = set
    __name__ = "set"

    def __new__(cls, *a):
        if a and hasattr(a[0], "vk_set"):
            return a[0].vk_set()
        return set(*a)


class _IntShim(metaclass=_Meta):
    _t = int
    __name__ = "int"

    def __new__(cls, *a):
        return sint(*a)


class _FloatShim(metaclass=_Meta):
    _t = float
    __name__ = "float"

    def __new__(cls, *a):
        return sfloat(*a)


def instrument(src, filename, cdiv=()):
    tree = ast.parse(src, filename)
    tree = LoopCutter(cdiv).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


def load_pyx(path, extra=None):
    """execute the converted .pyx; returns (namespace, meta, source)"""
    with open(path) as f:
        text = f.read()
    src, meta = pyx_to_py(text)
    cd = [n for n, m in meta.items() if m["cdivision"]]
    code = instrument(src, path, cd)
    ns = {"__name__": "vk_pyx", "__builtins__": make_builtins(), "__vcloop__": Loop,
          "__cdiv__": cdiv, "__cmod__": cmod, "__cint__": sint, "__lc__": lc, "__lc2__": lc2}
    ns.update(c_math())
    ns.update(extra or {})
    exec(code, ns)
    ns["np"] = NPShim()
    return ns, meta, src


def load_py(path, package, extra=None, name=None):
    """execute an instrumented .py module of the repository"""
    with open(path) as f:
        text = f.read()
    code = instrument(text, path)
    ns = {"__name__": name or (package + "." + path.rsplit("/", 1)[1][:-3]), "__package__": package,
          "__builtins__": make_builtins(), "__vcloop__": Loop, "__cdiv__": cdiv, "__cmod__": cmod,
          "__cint__": sint, "__file__": path, "__lc__": lc, "__lc2__": lc2}
    exec(code, ns)
    ns.update(extra or {})
    return ns, text


class _Module:
    def __init__(self, mod, over):
        self._mod, self._over = mod, over

    def __getattr__(self, n):
        return self._over[n] if n in self._over else getattr(self._mod, n)


def _shim_math(ns):
    """functions of the math module on symbolic numbers (pi stays the symbol PI)"""
    import math
    import cmath
    cm = c_math()
    cm["exp"] = lambda x: sym.fexp(x) if sym.is_sym(x) else math.exp(x)
    cm["fabs"] = abs
    for k, v in list(ns.items()):
        if v is math or v is cmath:
            ns[k] = _Module(v, cm)
            continue
        for f in ("sqrt", "cos", "sin", "exp", "fabs"):
            if v is getattr(math, f) or v is getattr(cmath, f, None):
                ns[k] = cm[f]


class World:
    """instrumented copies of several modules of the package that import each other;
    every other import is the real one"""

    def __init__(self, src, names, shims=None, math=False):
        self.src, self.names = src, set(names)
        self.math = math
        self.shims = shims or {}
        self.mods = {}
        self._imp = builtins.__import__

    def path(self, name):
        return f"{self.src}/" + name.replace(".", "/")

    def mod(self, name):
        import os
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType(name)
        p = self.path(name)
        if os.path.exists(p + ".pyx"):
            ns = load_pyx(p + ".pyx")[0]
            m.__dict__.update(ns)
            self.mods[name] = m
            return m
        self.mods[name] = m
        with open(p + ".py") as f:
            code = instrument(f.read(), p + ".py")
        b = make_builtins()
        b["__import__"] = self._import
        ns = m.__dict__
        ns.update({"__name__": name, "__package__": name.rsplit(".", 1)[0], "__builtins__": b,
                   "__vcloop__": Loop, "__cdiv__": cdiv, "__cmod__": cmod, "__cint__": sint,
                   "__file__": p + ".py", "__lc__": lc, "__lc2__": lc2})
        for k, v in self.shims.items():
            if not k.startswith("np"):
                ns[k] = v
        exec(code, ns)
        if "np" in self.shims:
            for k, v in list(ns.items()):
                if getattr(v, "__name__", "") == "numpy" and isinstance(v, types.ModuleType):
                    ns[k] = self.shims["np"]
        if self.math:
            _shim_math(ns)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        full = name
        if level:
            pkg = globals["__package__"].split(".")
            pkg = pkg[:len(pkg) - (level - 1)]
            full = ".".join(pkg + ([name] if name else []))
        if not full.startswith("tbplas"):
            return self._imp(name, globals, locals, fromlist, level)
        if full in self.names:
            return self.mod(full)
        base = self._imp(full, {}, {}, fromlist or ("x",), 0)
        over = {f: self.mod(full + "." + f) for f in (fromlist or ()) if full + "." + f in self.names}
        pk = {}
        if hasattr(base, "__path__"):
            # names re-exported by a package __init__ from an instrumented module
            for nm in self.names:
                if nm.rsplit(".", 1)[0] == full and nm in self.mods:
                    m = self.mods[nm]
                    for f in (fromlist or ()):
                        if f in m.__dict__ and f not in over:
                            pk[f] = m.__dict__[f]
        if over or pk:
            q = types.ModuleType(full)
            q.__dict__.update(base.__dict__)
            q.__dict__.update(pk)
            q.__dict__.update(over)
            return q
        return base
