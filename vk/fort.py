"""Front end for the Fortran sources: mechanical translation (on every run) of free-form Fortran into Python
text that the loop cutter instruments like any other module.

What the translation drops: comments, USE/IMPLICIT/PRIVATE statements, OpenMP directives (their data-sharing
clauses become separate obligations, see `omp_obligations`), PRINT/WRITE/OPEN/CLOSE statements, code excluded by the
preprocessor (no macro is defined in this build), INTENT attributes (kept as metadata).
What it keeps: declared kinds (every assignment converts to the kind of its target), array bounds, integer division,
sections, pointers (references), generic interfaces and user-defined operators (resolved by kind and rank of the
actual arguments, as the compiler does), by-reference scalars (returned to the caller)."""
import keyword
import math
import ast
import re

from . import sym, front
from .sym import (SArr, SInt, SReal, SBool, SCplx, Unsupported, zi, zr, zb, zc, z3, kind, _const)

# ------------------------------------------------------------------ lexical level


def preprocess(text, defs=()):
    out, stack = [], []
    for ln in text.split("\n"):
        m = re.match(r"^\s*#\s*(\w+)\s*(.*)$", ln)
        if m:
            d, a = m.group(1), m.group(2).strip()
            if d == "ifdef":
                stack.append([a in defs, False])
            elif d == "ifndef":
                stack.append([a not in defs, False])
            elif d == "else":
                stack[-1] = [not stack[-1][0], True]
            elif d == "endif":
                stack.pop()
            elif d == "if":
                raise Unsupported("#if")
            continue
        if all(s[0] for s in stack):
            out.append(ln)
    return "\n".join(out)


def split_comment(ln):
    q = None
    for k, ch in enumerate(ln):
        if q:
            if ch == q:
                q = None
        elif ch in "\"'":
            q = ch
        elif ch == "!":
            return ln[:k], ln[k:]
    return ln, ""


def statements(text):
    """logical statements in lower case (outside strings); OpenMP directives appear as '!$omp ...'"""
    out, buf = [], ""
    for ln in text.split("\n"):
        code, com = split_comment(ln)
        if com.lower().startswith("!$omp") and not code.strip():
            out.append(_lower(com.strip()))
            continue
        code = code.strip()
        if not code:
            continue
        if buf and code.startswith("&"):
            code = code[1:].strip()
        if code.endswith("&"):
            buf += code[:-1] + " "
            continue
        s = buf + code
        buf = ""
        for p in _split_semi(s):
            if p.strip():
                out.append(_lower(p.strip()))
    return out


def _split_semi(s):
    out, q, cur = [], None, ""
    for ch in s:
        if q:
            if ch == q:
                q = None
        elif ch in "\"'":
            q = ch
        elif ch == ";":
            out.append(cur)
            cur = ""
            continue
        cur += ch
    return out + [cur]


def _lower(s):
    out, q = "", None
    for ch in s:
        if q:
            if ch == q:
                q = None
            out += ch
        else:
            if ch in "\"'":
                q = ch
            out += ch.lower()
    return out


_TOK = re.compile(r"""\s*(?:
    (?P<str>"[^"]*"|'[^']*')
  | (?P<num>(?:\d+\.(?![a-z]+\.)\d*|\.\d+|\d+)(?:[de][+-]?\d+)?(?:_\w+)?)
  | (?P<dop>\.[a-z]+\.)
  | (?P<id>[a-z]\w*)
  | (?P<op>\*\*|//|\(/|/\)|==|/=|<=|>=|=>|[-+*/<>()=,:%\[\]])
)""", re.X)


def tokenize(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = _TOK.match(s, i)
        if not m or m.end() == i:
            raise Unsupported(f"token at {s[i:i+20]!r}")
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


def split_top(s, sep=","):
    out, d, q, cur = [], 0, None, ""
    for ch in s:
        if q:
            if ch == q:
                q = None
        elif ch in "\"'":
            q = ch
        elif ch in "([":
            d += 1
        elif ch in ")]":
            d -= 1
        if ch == sep and d == 0 and not q:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def pyid(n):
    return n + "_" if keyword.iskeyword(n) or n in ("print",) else n


# ------------------------------------------------------------------ declarations
class Var:
    def __init__(self, name, k, dims=None, intent=None, pointer=False, parameter=False, init=None, tname=None, target=False):
        self.name, self.k, self.dims, self.intent = name, k, dims, intent
        self.pointer, self.parameter, self.init, self.tname, self.target = pointer, parameter, init, tname, target

    @property
    def rank(self):
        return len(self.dims) if self.dims else 0


class Proc:
    def __init__(self, name, args, is_func, result=None, unit=None):
        self.name, self.args, self.is_func, self.result, self.unit = name, args, is_func, result, unit
        self.vars, self.body, self.uses = {}, [], []
        self.omp = []

    def outs(self):
        """scalar dummies returned to the caller (by-reference results)"""
        return [a for a in self.args if a in self.vars and self.vars[a].rank == 0 and self.vars[a].k != "type"
                and self.vars[a].intent in ("out", "inout")]


class Unit:
    def __init__(self):
        self.procs, self.generics, self.ops, self.consts, self.types = {}, {}, {}, {}, {}


_DECL = re.compile(r"^(integer|real|complex|logical|character|double precision|type)\b(.*)$")


def parse_decl(st):
    """-> list of Var or None"""
    m = _DECL.match(st)
    if not m:
        return None
    k, rest = m.group(1), m.group(2)
    if k == "type":
        mm = re.match(r"^\s*\(\s*(\w+)\s*\)(.*)$", rest)
        if not mm:
            return None
        tname, rest = mm.group(1), mm.group(2)
    else:
        tname = None
        mm = re.match(r"^\s*\(([^()]*)\)(.*)$", rest) or re.match(r"^\s*\*\s*(?:\(\*\)|\d+)(.*)$", rest)
        if mm:
            rest = mm.group(mm.lastindex)
    if "::" not in rest:
        return None
    attrs, ents = rest.split("::", 1)
    kk = {"integer": "int", "real": "real", "double precision": "real", "complex": "cplx", "logical": "bool",
          "character": "str", "type": "type"}[k]
    dims = intent = None
    pointer = parameter = external = target = False
    for a in split_top(attrs.strip().lstrip(",")):
        if a.startswith("dimension"):
            dims = split_top(a[a.index("(") + 1:a.rindex(")")])
        elif a.startswith("intent"):
            intent = a[a.index("(") + 1:a.rindex(")")].replace(" ", "")
        elif a in ("pointer", "allocatable"):
            pointer = True
        elif a == "parameter":
            parameter = True
        elif a == "external":
            external = True
        elif a == "target":
            target = True
    if external:
        return []
    out = []
    for e in split_top(ents):
        init = None
        mm = re.match(r"^(\w+)\s*(\(.*?\))?\s*(?:=\s*(.*))?$", e)
        d = dims
        if "=" in e and not re.match(r"^\w+\s*\(", e.split("=")[0]):
            nm, init = [x.strip() for x in e.split("=", 1)]
        elif "(" in e:
            nm = e[:e.index("(")].strip()
            d = split_top(e[e.index("(") + 1:e.rindex(")")])
        else:
            nm = e.strip()
        out.append(Var(nm, kk, d, intent, pointer, parameter, init, tname, target))
    return out


def parse(text, unit=None):
    unit = unit or Unit()
    cur, iface, typ = None, None, None
    for st in statements(preprocess(text)):
        if iface is not None:
            if re.match(r"^end\s*interface", st):
                iface = None
            else:
                m = re.match(r"^module\s+procedure\s*(?:::)?\s*(.*)$", st)
                if m:
                    tgt = unit.ops if iface[0] == "op" else unit.generics
                    tgt.setdefault(iface[1], []).extend(split_top(m.group(1)))
            continue
        if typ is not None:
            if re.match(r"^end\s*type", st):
                typ = None
            continue
        m = re.match(r"^interface\s+operator\s*\(\s*(\S+?)\s*\)", st)
        if m:
            iface = ("op", m.group(1).strip("."))
            continue
        m = re.match(r"^interface\s+(\w+)", st)
        if m:
            iface = ("gen", m.group(1))
            continue
        if re.match(r"^type\s*(::)?\s*\w+\s*$", st) and not st.startswith("type("):
            typ = st
            continue
        m = re.match(r"^(?:pure\s+|elemental\s+|recursive\s+)*(function|subroutine)\s+(\w+)\s*(?:\((.*?)\))?\s*(?:result\s*\(\s*(\w+)\s*\))?\s*$", st)
        if m and cur is None:
            cur = Proc(m.group(2), [a for a in split_top(m.group(3) or "")], m.group(1) == "function",
                       m.group(4) or (m.group(2) if m.group(1) == "function" else None), unit)
            continue
        if cur is not None and re.match(r"^end\s*(function|subroutine)\b", st) or (cur is not None and st == "end"):
            unit.procs[cur.name] = cur
            cur = None
            continue
        if st.startswith("use ") or st.startswith("implicit") or st.startswith("private") or st == "contains" \
                or re.match(r"^(end\s+)?module\b", st) or re.match(r"^end\s*module", st) or st.startswith("include") or st.startswith("public"):
            continue
        d = parse_decl(st)
        if d is not None:
            for v in d:
                if cur is None:
                    unit.consts[v.name] = v
                else:
                    cur.vars[v.name] = v
            continue
        if cur is not None:
            cur.body.append(st)
    return unit


# ------------------------------------------------------------------ expressions
_INTR = {"size", "sqrt", "dsqrt", "exp", "cos", "dcos", "sin", "dsin", "abs", "dabs", "conjg", "real", "dble", "aimag", "cmplx", "dcmplx",
         "modulo", "mod", "int", "log", "dot_product", "norm2", "sum", "min", "max", "ieee_is_nan", "ieee_is_finite", "matmul", "dconjg"}


class Expr:
    """recursive descent, precedence of the Fortran standard"""

    def __init__(self, toks, proc):
        self.t, self.i, self.proc = toks, 0, proc

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def take(self, v=None):
        tk = self.peek()
        if v is not None and tk[1] != v:
            raise Unsupported(f"expected {v!r} at {tk!r}")
        self.i += 1
        return tk

    def full(self):
        r = self.defined()
        if self.i != len(self.t):
            raise Unsupported(f"trailing {self.t[self.i:]!r}")
        return r

    def defined(self):
        l = self.or_()
        while self.peek()[0] == "dop" and self.peek()[1] not in _DOPS:
            op = self.take()[1].strip(".")
            r = self.or_()
            l = f"__fop__({op!r}, {l}, {r})"
        return l

    def or_(self):
        l = self.and_()
        while self.peek()[1] in (".or.", ".eqv.", ".neqv."):
            op = self.take()[1]
            r = self.and_()
            l = f"__flog__({op!r}, {l}, {r})"
        return l

    def and_(self):
        l = self.not_()
        while self.peek()[1] == ".and.":
            self.take()
            l = f"__flog__('.and.', {l}, {self.not_()})"
        return l

    def not_(self):
        if self.peek()[1] == ".not.":
            self.take()
            return f"__flog__('.not.', {self.not_()}, None)"
        return self.rel()

    def rel(self):
        l = self.add()
        op = self.peek()[1]
        ops = {"==": "==", "/=": "!=", "<": "<", "<=": "<=", ">": ">", ">=": ">=", ".eq.": "==", ".ne.": "!=", ".lt.": "<",
               ".le.": "<=", ".gt.": ">", ".ge.": ">="}
        if op in ops:
            self.take()
            return f"({l} {ops[op]} {self.add()})"
        return l

    def add(self):
        if self.peek()[1] in ("+", "-") and self.peek()[0] == "op":
            s = self.take()[1]
            l = self.mul()
            l = f"(-{l})" if s == "-" else l
        else:
            l = self.mul()
        while self.peek()[0] == "op" and self.peek()[1] in ("+", "-"):
            op = self.take()[1]
            l = f"({l} {op} {self.mul()})"
        return l

    def mul(self):
        l = self.pow()
        while self.peek()[0] == "op" and self.peek()[1] in ("*", "/"):
            op = self.take()[1]
            r = self.pow()
            l = f"({l} * {r})" if op == "*" else f"__fdiv__({l}, {r})"
        return l

    def pow(self):
        b = self.prim()
        if self.peek()[1] == "**":
            self.take()
            # exponent may carry a sign in extensions; right associative
            return f"__fpow__({b}, {self.pow()})"
        return b

    def prim(self):
        k, v = self.take()
        if k == "num":
            v = v.split("_")[0]
            if re.match(r"^3\.14159265358979", v):
                return "__PI__"
            if re.fullmatch(r"\d+", v):
                return v
            return repr(float(v.replace("d", "e")))
        if k == "str":
            return repr(v[1:-1])
        if k == "dop":
            if v in (".true.", ".false."):
                return "True" if v == ".true." else "False"
            raise Unsupported(f"operator {v}")
        if v == "(/":
            return self.constructor()
        if v == "[":
            raise Unsupported("array constructor")
        if v == "(":
            e = self.defined()
            if self.peek()[1] == ",":
                self.take()
                f = self.defined()
                self.take(")")
                return f"__fcmplx__({e}, {f})"
            self.take(")")
            return f"({e})"
        if v in ("-", "+"):
            return f"({v}{self.prim()})"
        if k != "id":
            raise Unsupported(f"primary {v!r}")
        return self.ref(v)

    def constructor(self):
        # (/ (expr, i = a, b) /) only
        if self.peek()[1] != "(":
            raise Unsupported("array constructor")
        self.take("(")
        e = self.defined()
        self.take(",")
        var = self.take()[1]
        self.take("=")
        a = self.defined()
        self.take(",")
        b = self.defined()
        self.take(")")
        self.take("/)")
        return f"__fimplied__(lambda {pyid(var)}: {e}, {a}, {b})"

    def args(self):
        """inside parentheses: list of python argument strings (sections become slices)"""
        out = []
        self.take("(")
        if self.peek()[1] == ")":
            self.take()
            return out
        while True:
            out.append(self.arg())
            if self.peek()[1] == ",":
                self.take()
                continue
            self.take(")")
            return out

    def arg(self):
        if self.peek()[1] == ":":
            self.take()
            if self.peek()[1] in (",", ")"):
                return "slice(None)"
            return f"slice(None, {self.defined()})"
        if self.peek()[0] == "id" and self.peek(1)[1] == "=":
            n = self.take()[1]
            self.take("=")
            v = self.defined()
            return None if n == "kind" else f"{pyid(n)}={v}"
        e = self.defined()
        if self.peek()[1] == ":":
            self.take()
            if self.peek()[1] in (",", ")"):
                return f"slice({e}, None)"
            return f"slice({e}, {self.defined()})"
        return e

    def ref(self, n):
        p = self.proc
        v = p.vars.get(n) if p else None
        r = pyid(n)
        isarr = v is not None and v.dims is not None
        if v is not None and v.k == "type":
            isarr = False
        if self.peek()[1] == "(" and isarr:
            r = f"{r}[{', '.join(self.args())}]"
        elif self.peek()[1] == "(" and (v is None or v.k == "type" and n not in p.vars or (p.result == n and False)):
            a = [x for x in self.args() if x is not None]
            nm = f"f_{n}" if n in _INTR and not self._user(n) else pyid(n)
            r = f"{nm}({', '.join(a)})"
        while self.peek()[1] == "%":
            self.take()
            r = f"{r}.{pyid(self.take()[1])}"
            if self.peek()[1] == "(":
                r = f"{r}[{', '.join(self.args())}]"
        return r

    def _user(self, n):
        u = self.proc.unit if self.proc else None
        return u is not None and (n in u.procs or n in u.generics)


_DOPS = {".and.", ".or.", ".not.", ".eqv.", ".neqv.", ".eq.", ".ne.", ".lt.", ".le.", ".gt.", ".ge.", ".true.", ".false."}


def expr(s, proc):
    return Expr(tokenize(s), proc).full()


# ------------------------------------------------------------------ statements
class Emit:
    def __init__(self, proc, unit):
        self.p, self.u = proc, unit
        self.out, self.ind = [], 1
        self.stack = []

    def w(self, s):
        self.out.append("    " * self.ind + s)

    def dims(self, v):
        r = []
        for d in v.dims:
            if d == ":":
                r.append("(1, None)")
            elif ":" in d:
                a, b = split_top(d, ":")
                r.append(f"({expr(a, self.p)}, {expr(b, self.p)})")
            else:
                r.append(f"(1, {expr(d, self.p)})")
        return "(" + "".join(x + ", " for x in r) + ")"

    def run(self):
        p = self.p
        if any(v.k == "str" for v in p.vars.values()):
            pass
        self.out.append(f"def {pyid(p.name)}({', '.join(pyid(a) for a in p.args)}):")
        loc = [v for v in p.vars.values() if v.name not in p.args]
        for v in p.vars.values():
            if v.parameter:
                self.w(f"{pyid(v.name)} = __fcv__({v.k!r}, {expr(v.init, p)})")
        for v in p.vars.values():
            if v.name in p.args and v.dims is not None:
                self.w(f"{pyid(v.name)} = __fdummy__({pyid(v.name)}, {v.k!r}, {self.dims(v)})")
        for v in loc:
            if v.parameter:
                continue
            if v.k == "type":
                self.w(f"{pyid(v.name)} = __ftype__({v.tname!r})")
            elif v.dims is not None and not v.pointer:
                self.w(f"{pyid(v.name)} = __fnew__({v.k!r}, {self.dims(v)}, {v.name!r})")
        self.body(p.body)
        self.w(self.ret())
        if self.stack:
            raise Unsupported("unbalanced blocks")
        return "\n".join(self.out)

    def ret(self):
        p = self.p
        if p.is_func:
            if p.outs():
                raise Unsupported("function with output arguments")
            return f"return {pyid(p.result)}"
        o = p.outs()
        return "return " + (", ".join(pyid(x) for x in o) + ("," if o else "") if o else "None")

    def body(self, sts):
        for st in sts:
            self.stmt(st)

    def push(self, k):
        self.stack.append((k, len(self.out)))
        self.ind += 1

    def pop(self, k):
        if not self.stack or self.stack[-1][0] != k:
            raise Unsupported(f"end of {k}")
        _, n = self.stack.pop()
        if len(self.out) == n:
            self.w("pass")
        self.ind -= 1

    def stmt(self, st):
        p = self.p
        if st.startswith("!$omp"):
            return
        st = re.sub(r"^\w+\s*:\s*(?=do\b)", "", st)
        if re.match(r"^(print|write|open|close|read|flush)\b", st) and not re.match(r"^\w+\s*=[^=]", st) and not re.match(r"^\w+\s*\([^=]*\)\s*=[^=]", st):
            self.w("pass")
            return
        if re.match(r"^end\s*do\b", st) or st == "enddo":
            self.pop("do")
            return
        if re.match(r"^end\s*if\b", st) or st == "endif":
            self.pop("if")
            return
        if st == "else":
            self.pop("if")
            self.w("else:")
            self.push("if")
            return
        m = re.match(r"^else\s*if\s*(\(.*\))\s*then$", st)
        if m:
            self.pop("if")
            self.w(f"elif {expr(m.group(1), p)}:")
            self.push("if")
            return
        m = re.match(r"^if\s*(\(.*\))\s*then$", st)
        if m:
            self.w(f"if {expr(m.group(1), p)}:")
            self.push("if")
            return
        if re.match(r"^if\s*\(", st):
            d = 0
            for k in range(st.index("("), len(st)):
                d += {"(": 1, ")": -1}.get(st[k], 0)
                if d == 0:
                    break
            self.w(f"if {expr(st[st.index('('):k + 1], p)}:")
            self.push("if")
            self.stmt(st[k + 1:].strip())
            self.pop("if")
            return
        m = re.match(r"^do\s+while\s*(\(.*\))$", st)
        if m:
            self.w(f"while {expr(m.group(1), p)}:")
            self.push("do")
            return
        if st == "do":
            self.w("while True:")
            self.push("do")
            return
        m = re.match(r"^do\s+(\w+)\s*=\s*(.*)$", st)
        if m:
            parts = split_top(m.group(2))
            a, b = expr(parts[0], p), expr(parts[1], p)
            if len(parts) == 3:
                s = expr(parts[2], p)
                self.w(f"for {pyid(m.group(1))} in __frange__({a}, {b}, {s}):")
            else:
                self.w(f"for {pyid(m.group(1))} in range({a}, {b} + 1):")
            self.push("do")
            return
        if st in ("exit", "cycle"):
            self.w("break" if st == "exit" else "continue")
            return
        if st == "return":
            self.w(self.ret())
            return
        if re.match(r"^stop\b", st) or re.match(r"^error\s+stop\b", st):
            self.w("__fstop__()")
            return
        m = re.match(r"^call\s+(\w+)\s*(?:\((.*)\))?$", st)
        if m:
            return self.call(m.group(1), split_top(m.group(2) or ""))
        if re.match(r"^(allocate|deallocate|nullify)\b", st):
            raise Unsupported(st.split("(")[0])
        if "=>" in st:
            l, r = st.split("=>", 1)
            lt = expr(l.strip(), p)
            self.w(f"{lt} = {expr(r.strip(), p)}")
            return
        # assignment: top-level '='
        d = 0
        for k, ch in enumerate(st):
            d += {"(": 1, ")": -1}.get(ch, 0)
            if ch == "=" and d == 0 and st[k - 1] not in "<>/=" and st[k + 1:k + 2] != "=":
                return self.assign(st[:k].strip(), st[k + 1:].strip())
        raise Unsupported(f"statement {st[:60]!r}")

    def assign(self, l, r):
        p = self.p
        rr = expr(r, p)
        m = re.match(r"^(\w+)$", l)
        if m:
            v = p.vars.get(l)
            if v is None:
                raise Unsupported(f"undeclared {l}")
            if v.dims is not None:
                self.w(f"{pyid(l)}.assign({rr})")
            elif v.k == "type":
                self.w(f"{pyid(l)} = {rr}")
            else:
                self.w(f"{pyid(l)} = __fcv__({v.k!r}, {rr})")
            return
        self.w(f"{expr(l, p)} = {rr}")

    def call(self, n, args):
        p = self.p
        tgt = []
        q = self.u.procs.get(n)
        cand = [q] if q else [self.u.procs[x] for x in self.u.generics.get(n, []) if x in self.u.procs]
        outs = {tuple(c.args.index(o) for o in c.outs()) for c in cand}
        if len(outs) > 1:
            raise Unsupported("generic with different outputs")
        if any("=" in a and re.match(r"^\w+\s*=[^=]", a) for a in args):
            raise Unsupported("keyword arguments")
        ea = [Expr(tokenize(a), p).full() for a in args]
        if n in ("random_seed", "random_number"):
            if n == "random_number":
                self.w(f"{expr(args[0], p)} = f_random_number()")
                return
            raise Unsupported("random_seed")
        for k in (outs.pop() if outs else ()):
            tgt.append(args[k])
            if all(c.vars[c.args[k]].intent == "out" for c in cand) and re.match(r"^\w+$", args[k]):
                ea[k] = "None"  # undefined on entry
        c = f"{pyid(n)}({', '.join(ea)})"
        if tgt:
            for t in tgt:
                if not re.match(r"^\w+$", t) and not re.match(r"^\w+\s*\(", t):
                    raise Unsupported("expression passed to an output argument")
            self.w(f"{', '.join(expr(t, p) for t in tgt)}, = {c}")
        else:
            self.w(c)


# ------------------------------------------------------------------ run time of the translated text
def cv(k, v):
    if k in ("type", "str"):
        return v
    kv = kind(v)
    if kv is None:
        if k == "bool":
            return v
        raise Unsupported(f"conversion of {type(v).__name__} to {k}")
    if k == "cplx":
        if kv == "cplx":
            return v
        return SCplx(zr(v), z3.RealVal(0)) if sym.is_sym(v) else complex(v)
    if k == "real":
        if kv == "cplx":
            v = v.real
        return SReal(zr(v)) if sym.is_sym(v) else float(v)
    if k == "int":
        if kv == "cplx":
            v = v.real
        return front.sint(v)
    return v


def fdiv(a, b):
    if isinstance(a, (Sect, FArr)):
        return sect(a).div(b)
    if isinstance(b, (Sect, FArr)):
        return sect(b).rdiv(a)
    if kind(a) == "int" and kind(b) == "int":
        return front.cdiv(a, b)
    if kind(a) is None or kind(b) is None:
        return a / b
    if not sym.is_sym(a) and not sym.is_sym(b):
        if sym.E is not None:
            return SReal(zr(a)) / b if kind(a) != "cplx" else a / b
        return a / b
    return a / b


def fpow(a, b):
    if isinstance(b, int) and b >= 0:
        if b == 0:
            return 1
        r = a
        for _ in range(b - 1):
            r = r * a
        return r
    if not sym.is_sym(a) and not sym.is_sym(b):
        return a ** b
    raise Unsupported("power")


def flog(op, a, b):
    if op == ".not.":
        return (not a) if isinstance(a, bool) else SBool(z3.Not(zb(a)))
    if isinstance(a, bool) and isinstance(b, bool):
        return {".and.": a and b, ".or.": a or b, ".eqv.": a == b, ".neqv.": a != b}[op]
    za, zb_ = zb(a), zb(b)
    return SBool({".and.": z3.And(za, zb_), ".or.": z3.Or(za, zb_), ".eqv.": za == zb_, ".neqv.": za != zb_}[op])


def fcmplx(a, b=0):
    if kind(a) == "cplx":
        return a
    if not sym.is_sym(a) and not sym.is_sym(b):
        return complex(a, b)
    return SCplx(zr(a), zr(b))


class Stop(Exception):
    """the translated routine executed STOP"""


def fstop():
    e = sym.E
    if e is not None and getattr(e, "stop_hook", None):
        e.stop_hook()
    raise sym.PathEnd()


def frange(a, b, s):
    c = s if isinstance(s, int) else _const(zi(s))
    if c is None:
        if not sym.is_sym(a) and not sym.is_sym(b) and not sym.is_sym(s):
            return range(a, b + (1 if s > 0 else -1), s)
        raise Unsupported("symbolic loop step")
    return front.srange(a, b + (1 if c > 0 else -1), c)


class Sect:
    """one-dimensional array expression: n elements, at(k) with k from 0"""
    __array_ufunc__ = None

    def __init__(self, n, at):
        self.n, self.at = n, at

    def _op(self, o, f):
        if kind(o) is not None:
            return Sect(self.n, lambda k: f(self.at(k), o))
        o = sect(o)
        _conform(self.n, o.n)
        return Sect(self.n, lambda k: f(self.at(k), o.at(k)))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._op(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._op(o, lambda a, b: b * a)

    def __neg__(self):
        return Sect(self.n, lambda k: -self.at(k))

    def div(self, o):
        return self._op(o, fdiv)

    def rdiv(self, o):
        return self._op(o, lambda a, b: fdiv(b, a))


def sect(x):
    if isinstance(x, Sect):
        return x
    if isinstance(x, FArr) and x.rank == 1:
        a = x.arr.snapshot()
        return Sect(x.arr.shape[0], lambda k: a.get((zi(k),)) + x.add if x.add else a.get((zi(k),)))
    raise Unsupported("array expression")


def _conform(a, b):
    sym.eng().oblige(zb(a == b) if sym.is_sym(a) or sym.is_sym(b) else z3.BoolVal(a == b), "arrays of the same size", soft="bounds")


def fimplied(f, lo, hi):
    return Sect(hi - lo + 1, lambda k: f(lo + k))


class FArr:
    """array seen with Fortran bounds.  `arr`: SArr holding the elements; `rev`: subscripts are reversed (arrays that
    Python passes in C order)"""
    __array_ufunc__ = None

    def __init__(self, arr, lbs, rev=False, add=0):
        # add: the caller passes the array plus this constant (1-based index tables); such arrays are read only
        self.arr, self.lbs, self.rev, self.add = arr, tuple(lbs), rev, add

    @property
    def vk_arr(self):
        return self.arr

    @property
    def k(self):
        return self.arr.k

    @property
    def rank(self):
        return self.arr.nd

    @property
    def fshape(self):
        return self.arr.shape[::-1] if self.rev else self.arr.shape

    def size(self, dim=None):
        if dim is None:
            r = 1
            for x in self.fshape:
                r = r * x
            return r
        return self.fshape[dim - 1]

    def _ix(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) != self.rank:
            raise Unsupported("wrong number of subscripts")
        if any(isinstance(i, slice) for i in idx):
            return None
        z = tuple(i - l for i, l in zip(idx, self.lbs))
        return z[::-1] if self.rev else z

    def __getitem__(self, idx):
        z = self._ix(idx)
        if z is None:
            idx = idx if isinstance(idx, tuple) else (idx,)
            if all(isinstance(i, slice) and i == slice(None) for i in idx):
                return self
            a, pos, fix = self._section(idx)
            return Sect(a.shape[pos], lambda k: a.get(tuple(zi(k) if j == pos else fix[j] for j in range(len(fix)))))
        return self.arr[z] + self.add if self.add else self.arr[z]

    def __setitem__(self, idx, v):
        z = self._ix(idx)
        if z is None:
            idx = idx if isinstance(idx, tuple) else (idx,)
            if all(isinstance(i, slice) and i == slice(None) for i in idx):
                return self.assign(v)
            a, pos, fix = self._section(idx)
            if kind(v) is not None:
                self._fill(lambda ks: z3.And(*[ks[j] == f for j, f in enumerate(fix) if j != pos]), lambda ks: v)
            else:
                v = sect(v)
                _conform(a.shape[pos], v.n)
                self._fill(lambda ks: z3.And(*[ks[j] == f for j, f in enumerate(fix) if j != pos]), lambda ks: v.at(SInt(ks[pos])))
            return
        if self.add:
            raise Unsupported("write to an input")
        self.arr[z] = cv(self.k, v)

    def assign(self, v):
        if kind(v) is not None:
            self.arr[tuple(slice(None) for _ in range(self.rank))] = cv(self.k, v)
            return
        v = sect(v)
        if self.rank != 1 or self.add:
            raise Unsupported("array assignment")
        _conform(self.arr.shape[0], v.n)
        self._fill(lambda ks: z3.BoolVal(True), lambda ks: v.at(SInt(ks[0])))

    def _section(self, idx):
        """array, position of the full slice, fixed subscripts"""
        pos = [j for j, i in enumerate(idx) if isinstance(i, slice)]
        if len(pos) != 1 or idx[pos[0]] != slice(None) or self.rev or self.add or len(idx) != self.rank:
            raise Unsupported("array section")
        fix = [None if j == pos[0] else zi(i - l) for j, (i, l) in enumerate(zip(idx, self.lbs))]
        e = sym.eng()
        if not e.spec_depth:
            e.oblige(z3.And(*[z3.And(f >= 0, f < zi(self.arr.shape[j])) for j, f in enumerate(fix) if f is not None]), f"bounds:{self.arr.name.split('!')[0]}:section", soft="bounds")
        return self.arr.snapshot(), pos[0], fix

    def _fill(self, cond, val):
        """elements that satisfy cond get val (right sides were taken from snapshots)"""
        e, a = sym.eng(), self.arr
        old = a.snapshot()
        a.havoc(e.fresh_name(a.name.split("!")[0]))
        e.touch(a)
        ks = [z3.Int(e.fresh_name("k")) for _ in range(self.rank)]
        new, v, o = a.get(tuple(ks)), cv(self.k, val(ks)), old.get(tuple(ks))
        c = cond(ks)
        rng = z3.And(*[z3.And(k >= 0, k < zi(n)) for k, n in zip(ks, a.shape)])
        if self.k == "cplx":
            re, im = zc(v)
            eqs = [(new.re, z3.If(c, re, o.re)), (new.im, z3.If(c, im, o.im))]
        else:
            g = {"real": zr, "int": zi}[self.k]
            eqs = [(g(new), z3.If(c, g(v), g(o)))]
        for l, r in eqs:
            e.assume(z3.ForAll(ks, z3.Implies(rng, l == r), patterns=[l]))

    def _sec(self):
        return sect(self)

    def __add__(self, o):
        return sect(self) + o

    def __sub__(self, o):
        return sect(self) - o

    def __mul__(self, o):
        return sect(self) * o

    def __radd__(self, o):
        return o + sect(self)

    def __rmul__(self, o):
        return sect(self).__rmul__(o)

    def __neg__(self):
        return -sect(self)


def fnew(k, dims, name):
    """local array: contents arbitrary"""
    shape = [b - a + 1 if not (isinstance(a, int) and a == 1) else b for a, b in dims]
    return FArr(SArr(k, shape, name=sym.eng().fresh_name(name)), [a for a, _ in dims])


def fdummy(a, k, dims):
    if isinstance(a, FArr):
        if a.rank != len(dims):
            raise Unsupported("rank of a dummy argument")
        return FArr(a.arr, [lb for lb, _ in dims], a.rev, a.add)
    if hasattr(a, "fdummy"):
        return a.fdummy(k, dims)
    raise Unsupported(f"dummy array bound to {type(a).__name__}")


class FType:
    def __init__(self, tname):
        self.tname = tname


def intrinsics():
    cm = front.c_math()

    def size(x, dim=None):
        return x.size(dim)

    def absf(x):
        return abs(x)

    def conj(x):
        return x.conjugate()

    def re(x):
        return x.real if kind(x) == "cplx" else cv("real", x)

    def modulo(a, b):
        return a % b

    def log(x):
        raise Unsupported("log")
    return {"f_size": size, "f_sqrt": cm["sqrt"], "f_dsqrt": cm["sqrt"], "f_exp": lambda x: sym.fexp(x) if sym.is_sym(x) else cm["exp"](x),
            "f_cos": cm["cos"], "f_dcos": cm["cos"], "f_sin": cm["sin"], "f_dsin": cm["sin"], "f_abs": absf, "f_dabs": absf,
            "f_conjg": conj, "f_dconjg": conj, "f_real": re, "f_dble": re, "f_aimag": lambda x: x.imag, "f_cmplx": fcmplx, "f_dcmplx": fcmplx,
            "f_modulo": modulo, "f_mod": front.cmod, "f_int": front.sint, "f_log": log}


# ------------------------------------------------------------------ OpenMP
def _clauses(d):
    priv, red = set(), {}
    for m in re.finditer(r"(\w+)\s*\(([^()]*)\)", d):
        if m.group(1) in ("private", "firstprivate", "lastprivate"):
            priv |= {x.strip() for x in m.group(2).split(",")}
        elif m.group(1) == "reduction":
            op, vs = m.group(2).split(":")
            red.update({x.strip(): op.strip() for x in vs.split(",")})
        elif m.group(1) not in ("schedule", "num_threads", "shared"):
            raise Unsupported(f"OpenMP clause {m.group(1)}")
    return priv, red


def _lhs_rhs(st):
    d = 0
    if re.match(r"^(if\s*\(|do\b|end|else|call\b|exit|cycle|print|!)", st):
        return None
    for k, ch in enumerate(st):
        d += {"(": 1, ")": -1}.get(ch, 0)
        if ch == "=" and d == 0 and st[k - 1] not in "<>/=" and st[k + 1:k + 2] not in ("=", ">"):
            return st[:k].strip(), st[k + 1:].strip()
    return None


def _refs(text, name):
    """subscript lists with which `name` occurs in `text` (None: without subscripts)"""
    out = []
    for m in re.finditer(rf"(?<![\w%]){name}\b", text):
        r = text[m.end():].lstrip()
        if r.startswith("("):
            d = 0
            for k, ch in enumerate(r):
                d += {"(": 1, ")": -1}.get(ch, 0)
                if d == 0:
                    break
            out.append([x.replace(" ", "") for x in split_top(r[1:k])])
        else:
            out.append(None)
    return out


def omp_obligations(proc):
    """-> [(label, ok, detail)]: the parallel loops of the procedure give what the sequential text gives, up to the order of
    the terms of a reduction.  ok: True, False (a conflict), None (not understood)"""
    res, k, nloop = [], 0, 0
    b = proc.body
    while k < len(b):
        st = b[k]
        k += 1
        if not st.startswith("!$omp") or st.startswith("!$omp end"):
            continue
        nloop += 1
        lab = f"parallel loop {nloop} of {proc.name}"
        m = re.match(r"^!\$omp\s+parallel\s+do(\s+simd)?\b(.*)$", st)
        d = re.match(r"^(?:\w+\s*:\s*)?do\s+(\w+)\s*=(.*)$", b[k]) if k < len(b) else None
        if not m or not d:
            res.append((lab, None, f"directive {st!r}"))
            continue
        priv, red = _clauses(m.group(2))
        v = d.group(1)
        depth, body, j = 1, [], k + 1
        while depth:
            s = b[j]
            if re.match(r"^(\w+\s*:\s*)?do\b", s):
                depth += 1
            elif re.match(r"^end\s*do\b", s):
                depth -= 1
            if depth:
                # one-line IF: the guarded statement counts
                mm = re.match(r"^if\s*\((.*)\)\s*(\w.*)$", s)
                if mm and not s.endswith("then") and _lhs_rhs(mm.group(2)):
                    body += [f"if ({mm.group(1)}) then", mm.group(2)]
                else:
                    body.append(s)
            j += 1
        own = {v} | {m2.group(1) for s in body for m2 in [re.match(r"^do\s+(\w+)\s*=", s)] if m2}
        bad = []
        if any(s.startswith("call ") or s == "exit" or "return" == s for s in body):
            bad.append((None, "call or exit inside a parallel loop"))
        writes = {}
        for s in body:
            a = _lhs_rhs(s)
            if a is None:
                if "=>" in s:
                    bad.append((None, s))
                continue
            n = re.match(r"^(\w+)", a[0]).group(1)
            if "%" in a[0]:
                bad.append((None, s))
            elif n == a[0]:
                var = proc.vars.get(n)
                if var is not None and var.dims is not None:
                    if n not in priv:
                        bad.append((False, f"every iteration assigns the whole array {n}"))
                elif n in red:
                    if not re.match(rf"^{n}\s*\+", a[1]) or len(_refs(a[1], n)) != 1 or red[n] != "+":
                        bad.append((None, f"reduction {s}"))
                elif n not in priv and n not in own:
                    bad.append((False, f"{n} is assigned by every iteration and shared between the threads"))
            else:
                writes.setdefault(n, []).append(_refs(a[0], n)[0])
        for n, ws in writes.items():
            if n in priv:
                continue
            pos = {q for w in ws for q, x in enumerate(w) if x == v}
            pos = {q for q in pos if all(q < len(w) and w[q] == v for w in ws)}
            if not pos:
                simple = all(re.fullmatch(r"\w+", x) and (x not in priv and x not in own or x.isdigit()) for w in ws for x in w)
                bad.append((False if simple else None, f"different iterations may write the same element of {n}"))
                continue
            rd = [r for s in body for r in _refs(s, n)]
            if not any(all(r is not None and r[q] == v for r in rd) for q in pos):
                bad.append((None, f"an iteration reads elements of {n} that another one writes"))
        for n in priv - set(red):
            for s in body:
                if not _refs(s, n):
                    continue
                a = _lhs_rhs(s)
                if re.match(rf"^do\s+{n}\s*=", s) or (a and a[0] == n and not _refs(a[1], n)):
                    break
                if s.startswith("call "):
                    break
                bad.append((False, f"private {n} is used before it is given a value in an iteration"))
                break
        if not bad:
            res.append((lab, True, ""))
        else:
            ok = False if any(x is False for x, _ in bad) else None
            res.append((lab, ok, "; ".join(t for _, t in bad)))
    return res


def add_omp(result, unit, names):
    for n in names:
        for lab, ok, det in omp_obligations(unit.procs[n]):
            st = {True: "discharged", False: "refuted"}.get(ok)
            if st is None:
                result.unsupported = result.unsupported or f"{lab}: {det}"
                continue
            result.obls.append(sym.Obligation(lab + " equals its sequential text", st, "data-sharing rules", 0.0, n, det))
            result.counts[lab] = 1
            result.backends["data-sharing rules"] = result.backends.get("data-sharing rules", 0) + 1


FILES = ["const.f90", "math.F90", "csr.F90", "fft.F90", "random.f90", "kpm.f90", "funcs.f90", "propagation.f90", "tbpm.f90",
         "lindhard.f90", "analysis.f90"]


def load_unit(src, files=FILES):
    u = Unit()
    for f in files:
        with open(f"{src}/tbplas/fortran/{f}") as h:
            parse(h.read(), u)
    return u


class _NoPass(ast.NodeTransformer):
    """IF constructs that only print: nothing is left of them"""

    def visit_If(self, n):
        self.generic_visit(n)
        if all(isinstance(x, ast.Pass) for x in n.body + n.orelse):
            return ast.Pass()
        return n


def translate(unit, name):
    return ast.unparse(ast.fix_missing_locations(_NoPass().visit(ast.parse(Emit(unit.procs[name], unit).run()))))


def load(src, names, extra=None, unit=None):
    """-> namespace with the instrumented translations of the named procedures and all module constants"""
    u = unit or load_unit(src)
    ns = {"__name__": "vk_f90", "__builtins__": front.make_builtins(), "__vcloop__": front.Loop, "__cdiv__": front.cdiv, "__cmod__": front.cmod,
          "__cint__": front.sint, "__lc__": front.lc, "__lc2__": front.lc2, "__fcv__": cv, "__fdiv__": fdiv, "__fpow__": fpow, "__flog__": flog,
          "__fcmplx__": fcmplx, "__fimplied__": fimplied, "__fnew__": fnew, "__fdummy__": fdummy, "__ftype__": FType, "__frange__": frange, "__fstop__": fstop,
          "__PI__": sym.PI}
    ns.update(intrinsics())
    for n, v in u.consts.items():
        if v.parameter and v.init is not None:
            t = expr(v.init, Proc("", [], False, unit=u))
            ns[pyid(n)] = cv(v.k, eval(t, ns)) if "__PI__" not in t else sym.PI
    ns.update(extra or {})
    texts, todo, done = [], list(names), set()
    while todo:
        n = todo.pop(0)
        if n in done:
            continue
        done.add(n)
        if n not in u.procs:
            raise Unsupported(f"procedure {n} not found")
        texts.append(translate(u, n))
        # procedures called that have no contract here: their text is executed
        for m in re.findall(r"\b([a-z_]\w*)\(", texts[-1]):
            if m in u.procs and m not in ns and m not in done:
                todo.append(m)
    exec(front.instrument("\n\n".join(texts), "fortran"), ns)
    ns["__text__"] = "\n\n".join(texts)
    return ns
