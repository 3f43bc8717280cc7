"""Gated value numbering over the type-checked AST.

One structured pass per function: branches are merged with gates, loops are
summarised from a single symbolic iteration (induction variables, reductions),
uniquely resolved repository callees are inlined.  The result is an effect
summary: every store, call, return, throw, allocation with the canonical guard
and the loop domain under which it happens.  No path is enumerated, nothing is
executed and no solver is involved."""
import os
import sys
from terms import *
from terms import _base_const
from terms import _height as height
import stdalgo
from program import AnalysisError

sys.setrecursionlimit(20000)


class Loop:
    __slots__ = ("id", "k", "n", "brk", "line", "file", "fn", "omp", "reversed", "early", "cond", "kind", "consts", "noconst", "shared", "private", "unsure")

    def __init__(self, k, line, file, fn):
        self.k, self.n, self.brk = k, None, F
        self.line, self.file, self.fn = line, file, fn
        self.omp = None
        self.unsure = False
        self.shared, self.private = (), ()      # of a parallel loop: outer variables it assigns, objects of an iteration
        self.early = F
        self.cond = T
        self.kind = "for"
        self.consts, self.noconst = {}, set()

    def __repr__(self):
        return "%s<%s" % (self.k, self.n) + (" until %s" % self.brk if self.brk is not F else "")


PARALLEL = []       # loops under an OpenMP directive that were summarised


def _ast(n):
    if isinstance(n, dict):
        if "k" in n:
            yield n
        for v in n.values():
            yield from _ast(v)
    elif isinstance(n, list):
        for v in n:
            yield from _ast(v)


SPLIT = {}          # loops whose condition was split


class Effect:
    __slots__ = ("kind", "pc", "loops", "line", "file", "fn", "d", "seq", "stack", "ver")

    def __init__(self, kind, pc, loops, line, file, fn, d, stack):
        self.kind, self.pc, self.loops = kind, pc, loops
        self.line, self.file, self.fn, self.d = line, file, fn, d
        self.stack = stack
        self.seq = 0
        self.ver = None          # of a store: the version of memory it overwrites

    def guard(self):
        return and_(*self.pc)

    def where(self):
        return "%s:%d (%s)" % (self.file, self.line, self.fn)

    def __repr__(self):
        return "%-6s %s:%s | %s | if %s | %s" % (self.kind, self.file.split("/")[-1], self.line,
                                              " ".join(repr(l) for l in self.loops), show(and_(*self.pc)),
                                              ", ".join("%s=%s" % (k, show(v) if isinstance(v, (Term, tuple)) else v) for k, v in self.d.items()))


class State:
    __slots__ = ("env", "pc", "ver", "outer", "loop", "dead", "stored", "phis")

    def __init__(self):
        self.env, self.pc, self.ver = {}, (), {}
        self.outer = None
        self.loop = None
        self.dead = False
        self.stored = {}
        self.phis = {}

    def clone(self):
        s = State()
        s.env = dict(self.env)
        s.pc = self.pc
        s.ver = dict(self.ver)
        s.outer = self.outer
        s.loop = self.loop
        s.dead = self.dead
        s.stored = {k: set(v) for k, v in self.stored.items()}
        s.phis = self.phis
        return s

    def become(self, o):
        self.env, self.pc, self.ver = o.env, o.pc, o.ver
        self.outer, self.loop, self.dead = o.outer, o.loop, o.dead
        self.stored, self.phis = o.stored, o.phis


class Exit:
    __slots__ = ("kind", "st", "val", "line", "node")

    def __init__(self, kind, st, val=None, line=0, node=None):
        self.kind, self.st, self.val, self.line, self.node = kind, st, val, line, node


class Frame:
    def __init__(self, fn, no):
        self.fn = fn
        self.no = no
        self.vars = {}
        self.exits = []
        self.file = fn["file"]


class Summary:
    def __init__(self):
        self.effects = []
        self.ret = None
        self.state = None
        self.fn = None
        self.exits = []

    def of(self, *kinds):
        return [e for e in self.effects if e.kind in kinds]


FLOATS = ("float", "double", "long double")


def base_type(t):
    t = t.strip()
    for q in ("const ", "volatile "):
        while t.startswith(q):
            t = t[len(q):]
    for q in (" const", " volatile"):
        while t.endswith(q):
            t = t[:-len(q)]
    return t


def is_ref(t):
    return t.endswith("&")


def deref_type(t):
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return base_type(t)


def is_ptr(t):
    return base_type(t).endswith("*") or base_type(t).endswith("*const")


def is_float(t):
    return base_type(t) in FLOATS


def is_unsigned(t):
    b = base_type(t)
    return b.startswith("unsigned") or b == "bool" or b == "size_t"


def is_int(t):
    b = base_type(t)
    return b in ("int", "long", "short", "char", "signed char", "long long", "bool") or b.startswith("unsigned")


def is_string(t):
    return deref_type(t).startswith("std::basic_string<") or deref_type(t) in ("std::string",)


def is_vector(t):
    return deref_type(t).startswith("std::vector<")


def is_array(t):
    return t.rstrip().endswith("]")


LVKINDS = ("ref", "mem", "idx", "this")

WIDTH = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "uint8_t": 8, "uint16_t": 16, "uint32_t": 32}
PURE1 = {"exp", "log", "tanh", "sqrt", "fabs", "abs", "floor", "ceil", "round", "sin", "cos", "log10", "expf",
         "logf", "tanhf", "sqrtf", "fabsf", "floorf", "ceilf", "log2", "rsqrt", "native_exp", "native_log",
         "half_exp", "sinh", "cosh", "tan", "atan", "exp2", "log1p", "expm1", "labs", "roundf", "lround", "isnan",
         "isinf", "isfinite", "toupper", "tolower", "isdigit", "isspace", "isalpha"}
NORETURN = {"exit", "abort", "std::exit", "std::abort", "_exit", "std::terminate", "longjmp"}


class Engine:
    def __init__(self, prog, opaque=(), depth=12, hooks=None, inline=None, max_nodes=4000000, dyn=None):
        self.prog = prog
        self.opaque = set(opaque)
        self.depth = depth
        self.hooks = hooks or {}
        self.inline_pred = inline
        self.effects = []
        self.loops = []
        self.frames = []
        self.fno = 0
        self.uniq = 0
        self.budget = max_nodes
        self.callstack = []
        self.isa = False          # model dynamic_cast as a choice (otherwise: succeeds)
        self.dyn = dyn or {}      # lvalue term of object -> dynamic class name (for virtual calls)
        self.inlined = set()
        self.closures = {}        # lambda id -> (node, visible variables, this, enclosing function)
        self.unresolved = []
        self.typeof = {}          # pointer/lvalue term -> static type string (for parameters, fields)

    # ------------------------------------------------------------ helpers --
    def nid(self):
        self.uniq += 1
        return self.uniq

    def emit(self, kind, st, node, **d):
        line = node.get("l", 0) if node else 0
        f = self.frames[-1]
        e = Effect(kind, st.pc, tuple(self.loops), line, f.file, f.fn["q"], d, tuple(self.callstack))
        self.effects.append(e)
        return e

    # ------------------------------------------------------------- memory --
    @staticmethod
    def roots(lv):
        out = []
        x = lv
        while True:
            out.append(x)
            if x.op == "fld":
                x = x.a[0]
            elif x.op == "el":
                b = x.a[0]
                out.append(b)
                if b.op in ("ld", "vdata"):
                    x = b.a[0]
                elif b.op == "phi":
                    x = b.a[1]
                elif b.op == "addr":
                    x = b.a[0]
                else:
                    break
            elif x.op == "arr":
                x = x.a[0]
            else:
                break
        return out

    _roots = {}

    @classmethod
    def rootset(cls, lv):
        r = cls._roots.get(lv)
        if r is None:
            r = cls._roots[lv] = frozenset(cls.roots(lv))
        return r

    def vers(self, lv, st):
        v = tuple(st.ver[r] for r in self.roots(lv) if r in st.ver)
        if len(v) == 1:
            return v[0]
        return v

    def norm_lv(self, lv, st):
        return lv

    def chosen(self, lv):
        """the choice between pointers a location goes through, if any"""
        for r in self.roots(lv):
            if r.op == "ite" and r is not lv:
                return r
        return None

    def arms(self, b):
        """the pointers a choice may yield"""
        b = ptr_parts(b)[0]
        if b.op == "poly":
            b = choice(b)
        if b.op == "ite":
            return self.arms(b.a[1]) + self.arms(b.a[2])
        return [b]

    def load(self, lv, st):
        v = st.env.get(lv)
        if v is not None:
            return v
        if self.bytes and lv.op == "el":
            b, i = ptr_parts(lv.a[0]) if lv.a[1] is ZERO else (lv.a[0], lv.a[1])
            if b.op == "bytes" and is_num(i):
                i = int(i.a[0])
                return self.byte_of(self.load(el(padd(b.a[0], num(i // 4))), st), i % 4)
        if lv.op in ("el", "fld"):
            r = self.chosen(lv)
            if r is not None:
                c = self.simplify(r.a[0], st)
                a, b = subst(lv, {r: r.a[1]}), subst(lv, {r: r.a[2]})
                if c is T or c is F:
                    return self.load(a if c is T else b, st)
                return ite(c, self.load(a, st), self.load(b, st))
        # part of a value that was copied as a whole
        x = lv
        chain = []
        while x.op == "fld":
            chain.append(x.a[1])
            x = x.a[0]
            w = st.env.get(x)
            if w is None and x.op == "var" and st.outer is not None:
                w = self.peek(x, st)
            if w is not None and w.op == "val":
                y = w.a[0]
                for n in reversed(chain):
                    y = fld(y, n)
                return self.load(y, st)
            if w is not None and w.op not in ("val", "undef"):
                y = w
                for n in reversed(chain):
                    y = mk("fv", y, n)
                return y
        vv = self.vers(lv, st)
        if st.outer is not None:
            ov = self.vers(lv, st.outer)
            if vv != ov:
                return mk("ld", lv, vv)
            if self.concrete:
                v = self.constant_outside(lv, st)
                if v is not None:
                    return v
            p = mk("phi", st.loop.k, lv)
            st.phis[p] = lv
            return p
        if lv.op == "var":
            return mk("undef", lv.a[0])
        return mk("ld", lv, vv)

    def constant_outside(self, lv, st, only=None):
        """partial evaluation: a location with a known constant before the loop is read as that
        constant; the loop is repeated without it if it turns out to be modified"""
        s, crossed = st, []
        while s.outer is not None:
            if lv in s.loop.noconst:
                return None
            crossed.append(s.loop)
            s = s.outer
            v = s.env.get(lv)
            if v is None:
                x, chain = lv, []
                while x.op == "fld" and v is None:
                    chain.append(x.a[1])
                    x = x.a[0]
                    w = s.env.get(x)
                    if w is not None:
                        if w.op != "val":
                            return None
                        y = w.a[0]
                        for n in reversed(chain):
                            y = fld(y, n)
                        v = self.load(y, s)
            if v is not None:
                if only is not None and v.op not in only:
                    return None
                if only is not None or v.op in ("num", "true", "false", "null", "str", "alloc", "addr") or v is T or v is F or is_num(v):
                    for L in crossed:
                        L.consts[lv] = v
                    return v
                return None
            if s.outer is not None and self.vers(lv, s) != self.vers(lv, s.outer):
                return None
        return None

    def modified_consts(self, L, states):
        bad = set()
        for lv, v in L.consts.items():
            for s in states:
                w = s.env.get(lv)
                if (w is not None and w is not v) or any(r in s.stored for r in self.roots(lv) if r is not lv) or (lv in s.stored and w is not v):
                    bad.add(lv)
        return bad

    def peek(self, lv, st):
        s = st
        while s is not None:
            if lv in s.env:
                return s.env[lv]
            s = s.outer
        return None

    def exists(self, lv, st):
        s = st
        while s is not None:
            if lv in s.env:
                return True
            s = s.outer
        return False

    def kill_under(self, lv, st, bump=True, token=None):
        """the object at lv is modified in an unknown way"""
        dead = [x for x in st.env if x is not lv and lv in self.roots(x)]
        for x in dead:
            del st.env[x]
        st.env.pop(lv, None)
        if bump:
            t = token if token is not None else mk("h", self.nid())
            for x in [r for r in st.ver if r is not lv and lv in self.roots(r)]:
                del st.ver[x]
            st.ver[lv] = t
        st.stored.setdefault(lv, set()).add("havoc")

    def store(self, lv, val, st, node, op="", quiet=False):
        r = self.chosen(lv) if lv.op in ("el", "fld") else None
        if r is not None:
            c = self.simplify(r.a[0], st)
            a, b = subst(lv, {r: r.a[1]}), subst(lv, {r: r.a[2]})
            if c is T or c is F:
                return self.store(a if c is T else b, val, st, node, op, quiet)
            s1, s2 = st.clone(), st.clone()
            self.assume(s1, c)
            self.assume(s2, not_(c))
            self.store(a, val, s1, node, op, quiet)
            self.store(b, val, s2, node, op, quiet)
            m, _ = self.merge([s1, s2])
            if m is not None:
                st.become(m)
            else:
                st.dead = True
            return
        ver = self.vers(lv, st)
        if lv.op == "el":
            base = lv.a[0]
            fixed = is_num(lv.a[1])
            for x in list(st.env):
                if x.op == "el" and x.a[0] is base and x is not lv:
                    if fixed and is_num(x.a[1]):
                        continue
                    d = sub(x.a[1], lv.a[1])
                    if is_num(d):
                        continue
                    del st.env[x]
            st.stored.setdefault(base, set()).add(lv)
            prev = st.ver.get(base)
            st.ver[base] = mk("s", lv, prev) if False else mk("sv", base.id, self.nid())
        # a new whole value replaces what was known about its parts
        whole = ("fld",) if lv.op == "el" else ("fld", "el", "arr")
        for x in [x for x in st.env if x.op in whole and x is not lv and lv in self.rootset(x)]:
            del st.env[x]
        if lv.op != "el":
            st.stored.setdefault(lv, set()).add(lv)
        st.env[lv] = val
        if lv.op != "var" and not quiet and not (lv.op == "fld" and self._local_root(lv)):
            self.emit("store", st, node, lv=lv, val=val, op=op).ver = ver

    def _local_root(self, lv):
        while lv.op == "fld":
            lv = lv.a[0]
        return lv.op == "var"

    # -------------------------------------------------------------- merge --
    def merge(self, states, vals=None):
        """join several disjoint states; vals is an optional parallel list"""
        live = [(s, vals[i] if vals else None) for i, s in enumerate(states) if s is not None and not s.dead]
        if not live:
            return None, None
        s, v = live[0]
        for s2, v2 in live[1:]:
            s, v = self.merge2(s, v, s2, v2)
        return s, v

    def merge2(self, s1, v1, s2, v2):
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]:
            n += 1
        r1 = and_(*s1.pc[n:])
        r2 = and_(*s2.pc[n:])
        if r1 is T and r2 is not T:
            c = not_(r2)
        elif r2 is T or len(show_size(r1)) <= len(show_size(r2)):
            c = r1
        else:
            c = not_(r2)
        out = State()
        out.outer, out.loop, out.phis = s1.outer, s1.loop, s1.phis
        if s2.phis is not s1.phis:
            out.phis.update(s2.phis)
        j = or_(r1, r2)
        out.pc = s1.pc[:n] + (() if j is T else (j.a if j.op == "and" else (j,)))
        keys = set(s1.env) | set(s2.env)
        for k in sorted(keys, key=lambda t: t.id):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is None:
                if k.op == "var" and not self.exists(k, s1):
                    continue
                a = self.load(k, s1)
            if b is None:
                if k.op == "var" and not self.exists(k, s2):
                    continue
                b = self.load(k, s2)
            if a is b:
                out.env[k] = a
            elif a.op == "val" or b.op == "val" or a.op == "obj" or b.op == "obj":
                out.env[k] = mk("ite", c, a, b)
            else:
                out.env[k] = ite(c, a, b)
        for r in set(s1.ver) | set(s2.ver):
            a, b = s1.ver.get(r), s2.ver.get(r)
            out.ver[r] = a if a is b else mk("vm", c, a if a is not None else mk("v0"), b if b is not None else mk("v0"))
        for src in (s1.stored, s2.stored):
            for k, x in src.items():
                out.stored.setdefault(k, set()).update(x)
        v = v1
        if v1 is not v2:
            if v1 is None or v2 is None:
                v = v1 or v2
            else:
                v = ite(c, v1, v2)
        return out, v

    def assume(self, st, c):
        if c is F:
            st.dead = True
            return
        if c is T:
            return
        full = and_(*(st.pc + (c,)))
        if full is F:
            st.dead = True
            return
        new = c.a if c.op == "and" else (c,)
        st.pc = st.pc + tuple(x for x in new if x not in st.pc)

    def simplify(self, c, st):
        if c is T or c is F:
            return c
        if st.outer is None or True:
            if c in st.pc:
                return T
            nc = not_(c)
            if nc in st.pc:
                return F
            if len(st.pc) <= 24:
                if and_(*(st.pc + (c,))) is F:
                    return F
                if and_(*(st.pc + (nc,))) is F:
                    return T
        return c

    # --------------------------------------------------------- statements --
    dtors = False

    def block(self, stmts, st, out):
        """run statements in order; st is updated in place (dead when nothing falls through)"""
        if not self.dtors:
            for s in stmts:
                if st.dead:
                    return
                self.stmt(s, st, out)
            return
        mine, seen = [], len(out)
        fr = self.frames[-1]

        def leave():
            # objects constructed so far die on every exit taken since the last look
            nonlocal seen
            for x in out[seen:]:
                for lv, cls, n in reversed(mine):
                    if x.kind == "return" and x.val is not None and x.val.op == "val" and x.val.a[0] is lv:
                        continue
                    self.destroy(lv, cls, x.st, n)
            seen = len(out)
        for s in stmts:
            if st.dead:
                break
            self.stmt(s, st, out)
            leave()
            if s is not None and s["k"] == "decl":
                for v in s["v"]:
                    c = base_type(v["t"])
                    if c in self.prog.records and not is_ref(v["t"]) and not v.get("static") and not is_ptr(v["t"]):
                        mine.append((fr.vars[v["id"]], c, s))
        if not st.dead:
            for lv, cls, n in reversed(mine):
                self.destroy(lv, cls, st, n)

    def destroy(self, lv, cls, st, n, depth=0):
        """run the destructor of the object at lv, then those of its members and bases"""
        if st.dead or depth > 6:
            return
        r = self.prog.records.get(cls)
        if r is None:
            return
        name = cls.split("::")[-1].split("<")[0]
        d = [f for f in self.prog.byq.get(cls + "::~" + name, []) if f.get("body") is not None]
        if d:
            self.call_fn(d[0], addr(lv), [], n, st)
        for x in reversed(r.get("fields", [])):
            t = base_type(x["t"])
            if t in self.prog.records and not is_ptr(x["t"]) and not is_ref(x["t"]) and not x.get("static"):
                self.destroy(fld(lv, x["name"]), t, st, n, depth + 1)
        for b in r.get("bases", []):
            self.destroy(lv, b, st, n, depth + 1)

    def stmt(self, n, st, out):
        """out collects break/continue/return/throw exits of the enclosing constructs"""
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisError("analysis budget exceeded in %s" % (self.frames[-1].fn["q"] if self.frames else "?"))
        if n is None or st.dead:
            return
        k = n["k"]
        m = n.get("m", "")
        if k == "compound":
            self.block(n["s"], st, out)
        elif k == "decl":
            for v in n["v"]:
                self.decl(v, st, n)
        elif k == "if":
            if m in ("LOGDEBUG", "LOGINFO", "LOGWARN"):
                self.emit("log", st, n, level=m)
                return
            if n.get("var"):
                self.decl(n["var"], st, n)
            c = self.simplify(self.cond(n["c"], st), st)
            if st.dead:
                return
            self.branch(st, c, lambda s: self.stmt(n["th"], s, out),
                        (lambda s: self.stmt(n["el"], s, out)) if n.get("el") else (lambda s: None))
        elif k in ("for", "while", "do", "rangefor"):
            self.loop(n, st, out)
        elif k == "return":
            v = None
            if n.get("e") is not None:
                rt = self.frames[-1].fn["ret"]
                if is_ref(rt):
                    v = addr(self.lv(n["e"], st))
                else:
                    v = self.ev(n["e"], st)
                    if base_type(rt) == "bool":
                        v = to_bool(v) if is_bool(to_bool(v)) else v
            if st.dead:
                return
            out.append(Exit("return", st.clone(), v, n.get("l", 0), n))
            if len(self.frames) == 1:
                self.emit("return", st, n, val=v if v is not None else mk("void"))
            elif self.trace_inner:
                self.emit("iret", st, n, val=v if v is not None else mk("void"))
            st.dead = True
        elif k in ("break", "continue"):
            out.append(Exit(k, st.clone(), None, n.get("l", 0), n))
            st.dead = True
        elif k == "nullstmt":
            pass
        elif k == "switch":
            self.switch(n, st, out)
        elif k in ("case", "default", "label"):
            self.stmt(n["b"], st, out)
        elif k == "try":
            self.try_(n, st, out)
        elif k == "omp":
            self.omp(n, st, out)
        else:
            self.ev(n, st, discard=True)
            if st.dead:
                return

    def omp(self, n, st, out):
        if n.get("b"):
            if any(x in n.get("dir", "For") for x in ("For", "Simd")):
                self.pending_omp = n
            self.stmt(n["b"], st, out)
            self.pending_omp = None

    pending_omp = None

    def branch(self, st, c, th, el):
        if c is T:
            th(st)
            return
        if c is F:
            el(st)
            return
        s1, s2 = st.clone(), st.clone()
        self.assume(s1, c)
        self.assume(s2, not_(c))
        if not s1.dead:
            th(s1)
        if not s2.dead:
            el(s2)
        m, _ = self.merge([s1, s2])
        if m is None:
            st.dead = True
        else:
            st.become(m)

    def switch(self, n, st, out):
        v = self.ev(n["c"], st)
        items = []   # (labels, stmt)
        body = n["b"]["s"] if n["b"]["k"] == "compound" else [n["b"]]
        for s in body:
            labels = []
            while s is not None and s["k"] in ("case", "default"):
                labels.append(s)
                s = s["b"]
            items.append((labels, s))
        conds = []
        for labels, s in items:
            for l in labels:
                if l["k"] == "case":
                    cv = num(int(l["cv"])) if "cv" in l else self.ev(l["v"], st)
                    conds.append(eq0(sub(v, cv)))
        default = and_(*[not_(c) for c in conds])
        cur = None
        outs = []
        has_default = any(l["k"] == "default" for ls, _ in items for l in ls)
        for labels, s in items:
            if labels:
                cs = []
                for l in labels:
                    if l["k"] == "case":
                        cv = num(int(l["cv"])) if "cv" in l else self.ev(l["v"], st)
                        cs.append(eq0(sub(v, cv)))
                    else:
                        cs.append(default)
                e = st.clone()
                self.assume(e, or_(*cs))
                cur, _ = self.merge([x for x in (cur, e) if x is not None])
            if cur is None or cur.dead:
                continue
            sub_out = []
            self.stmt(s, cur, sub_out)
            for x in sub_out:
                if x.kind == "break":
                    outs.append(x.st)
                else:
                    out.append(x)
            if cur.dead:
                cur = None
        if cur is not None:
            outs.append(cur)
        if not has_default:
            e = st.clone()
            self.assume(e, default)
            outs.append(e)
        m, _ = self.merge(outs)
        if m is None:
            st.dead = True
        else:
            st.become(m)

    def try_(self, n, st, out):
        pre = st.clone()
        sub_out = []
        e0 = len(self.effects)
        s = st.clone()
        self.stmt(n["b"], s, sub_out)
        exc = mk("tb", mk("exc", n.get("l", 0), self.nid()))
        states = [s]
        for h in n["h"]:
            hs = pre.clone()
            for e in self.effects[e0:]:
                if e.kind == "store":
                    self.kill_under(e.d["lv"], hs)
            for lv in list(hs.env):
                if lv.op == "var" and s.env.get(lv) is not hs.env.get(lv):
                    hs.env[lv] = mk("unk", self.nid())
            self.assume(hs, exc)
            if h.get("v"):
                self.bind_var(h["v"], hs, mk("sym", "exc"))
            self.emit("catch", hs, n, t=h["t"])
            self.stmt(h["b"], hs, sub_out)
            states.append(hs)
        self.assume(s, not_(exc)) if not s.dead else None
        out.extend([x for x in sub_out if x.kind != "throw"])
        m, _ = self.merge([x for x in states if not x.dead])
        if m is None:
            st.dead = True
        else:
            st.become(m)

    # ------------------------------------------------------------ loops ----
    def loop(self, n, st, out):
        fr = self.frames[-1]
        k = fresh("k")
        L = Loop(k, n.get("l", 0), fr.file, fr.fn["q"])
        L.kind = n["k"]
        if self.pending_omp is not None:
            L.omp = self.pending_omp
            self.pending_omp = None
            deep = self.collapse(L.omp)
            L.private = [fr.vars[x["id"]] for x in (n.get("i") or {}).get("v", []) if isinstance(x, dict) and x.get("id") in fr.vars]
        kind = n["k"]
        if kind == "for" and n.get("i"):
            self.stmt(n["i"], st, out)
            if st.dead:
                return
        if kind == "for" and n.get("c") is not None and L.omp is None and (self.concrete or self.allocates(n["b"])):
            if self.peel(n, st, out, self.peel_limit if self.concrete else 12):
                return
        if kind in ("while", "do") and self.concrete and n.get("c") is not None:
            if self.peel(n, st, out, self.peel_limit):
                return
        if kind in ("for", "while"):
            n = self.split_condition(n)
        rng = None
        if kind == "rangefor":
            t = n["r"].get("t", "")
            items = self.list_items(n["r"])
            if items is not None:
                rlv = mk("var", "list@%d" % self.nid())
                for i, x in enumerate(items):
                    self.init_into(el(mk("arr", rlv), num(i)), x, x.get("t", ""), st)
                if self.peel_range(n, rlv, "x [%d]" % len(items), st, out):
                    return
            rlv = self.lv(n["r"], st)
            rng = (rlv, t)
            if self.concrete and self.peel_range(n, rlv, t, st, out):
                return
        tries = 0
        keep = (st.clone(), len(self.effects), dict(fr.vars), len(fr.throws), len(out), self.pending_omp) if self.concrete else None
        while True:
            if L.omp is not None and deep > 1:
                self.pending_omp = dict(L.omp, collapse=deep - 1)
            r = self.loop_once(n, st, out, L, fr, kind, rng)
            self.pending_omp = None
            states, args = r
            bad = self.modified_consts(L, states) if L.consts else ()
            if not bad:
                self.finish_loop(*args)
                return
            if keep is None:
                raise AnalysisError("function pointer changes in the loop at line %d" % L.line)
            L.noconst |= bad
            L.consts = {}
            tries += 1
            if tries > 20:
                raise AnalysisError("loop at line %d does not stabilise" % L.line)
            st.become(keep[0].clone())
            del self.effects[keep[1]:]
            fr.vars = dict(keep[2])
            del fr.throws[keep[3]:]
            del out[keep[4]:]
            L.k = fresh("k")

    @staticmethod
    def list_items(x):
        """elements of a braced list used as a range"""
        if "initializer_list" not in x.get("t", "") and x.get("k") != "initlist":
            return None
        for _ in range(6):
            if x.get("k") == "initlist":
                return x["a"]
            y = x.get("e")
            if y is None and len(x.get("a", [])) == 1:
                y = x["a"][0]
            if not isinstance(y, dict):
                return None
            x = y
        return None

    def split_condition(self, n):
        """a loop that also ends on a condition over values its body assigns: that condition as a break at the start of the body"""
        c = n.get("c")
        if not isinstance(c, dict) or not (c.get("k") == "bin" and c.get("op") == "&&"):
            return n
        if id(n) in SPLIT:
            return SPLIT[id(n)][1]
        parts = []

        def flat(x):
            if x.get("k") == "bin" and x.get("op") == "&&":
                flat(x["a"])
                flat(x["b"])
            else:
                parts.append(x)
        flat(c)
        assigned = set()

        def asg(x):
            if isinstance(x, dict):
                if x.get("k") == "asg" and x.get("op") == "" and isinstance(x.get("a"), dict) and x["a"].get("k") == "ref":
                    assigned.add(x["a"].get("id"))
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        asg(v)
            elif isinstance(x, list):
                for v in x:
                    asg(v)
        asg(n["b"])

        def mentions(x):
            if isinstance(x, dict):
                return (x.get("k") == "ref" and x.get("id") in assigned) or any(mentions(v) for v in x.values() if isinstance(v, (dict, list)))
            return isinstance(x, list) and any(mentions(v) for v in x)
        moved = [x for x in parts if mentions(x)]
        kept = [x for x in parts if not mentions(x)]
        r = n
        if moved and kept:
            r = dict(n)
            r["c"] = kept[0]
            for x in kept[1:]:
                r["c"] = dict(c, a=r["c"], b=x)
            r["b"] = {"k": "compound", "l": n.get("l", 0), "s": [{"k": "if", "l": x.get("l", n.get("l", 0)), "c": {"k": "un", "op": "!", "a": x, "t": "bool", "l": x.get("l", 0)},
                                                               "th": {"k": "break", "l": x.get("l", 0)}} for x in moved] + [n["b"]]}
        SPLIT[id(n)] = (n, r)
        return r

    def loop_once(self, n, st, out, L, fr, kind, rng):
        k = L.k
        e0 = len(self.effects)
        self.loops.append(L)
        s = State()
        s.outer, s.loop = st, L
        s.pc = st.pc
        s.ver = dict(st.ver)
        inner_out = []
        prelen = len(st.pc)
        cterm = T
        extra_after = None
        if kind in ("for", "while"):
            if n.get("c") is not None:
                cterm = self.cond(n["c"], s)
                self.assume(s, cterm)
        elif kind == "rangefor":
            rlv, t = rng
            if is_array(t):
                cnt = num(int(t.rstrip()[:-1].split("[")[-1]))
                ellv = el(mk("arr", rlv), k)
            else:
                cnt = self.load(fld(self.vec(rlv, st), "#size"), st)
                ellv = el(mk("vdata", self.vec(rlv, st)), k)
            cterm = ge0(sub(sub(cnt, k), ONE))
            self.assume(s, cterm)
            v = n["v"]
            if is_ref(v["t"]):
                fr.vars[v["id"]] = ellv
            else:
                self.bind_var(v, s, self.value_at(ellv, v["t"], s))
        if not s.dead:
            self.stmt(n["b"], s, inner_out)
        conts = [x.st for x in inner_out if x.kind == "continue"]
        breaks = [x for x in inner_out if x.kind == "break"]
        others = [x for x in inner_out if x.kind not in ("continue", "break")]
        se, _ = self.merge([x for x in [s] + conts if not x.dead])
        if se is not None and kind == "for" and n.get("n"):
            self.ev(n["n"], se, discard=True)
        docond = None
        if se is not None and kind == "do":
            docond = self.cond(n["c"], se)
        self.loops.pop()
        states = ([se] if se is not None else []) + [b.st for b in breaks] + [x.st for x in others]
        return states, (L, n, st, s, se, breaks, others, cterm, docond, e0, prelen, out)

    def allocates(self, n):
        """does the statement create objects or grow a container (syntactically)?"""
        if isinstance(n, dict):
            if n.get("k") == "new" or (n.get("k") == "mcall" and n.get("fn", {}).get("name") in ("push_back", "emplace_back")):
                return True
            return any(self.allocates(v) for v in n.values() if isinstance(v, (dict, list)))
        if isinstance(n, list):
            return any(self.allocates(v) for v in n)
        return False

    def peel(self, n, st, out, limit=12):
        """unroll the iterations of a loop whose condition has a known value; True if it ended"""
        brk = []
        done = False
        st0, eff0, out0 = st.clone(), len(self.effects), len(out)
        for it in range(limit):
            if it or n["k"] != "do":
                probe = st.clone()
                e0 = len(self.effects)
                c = self.cond(n["c"], probe)
                del self.effects[e0:]
                if c is not T and c is not F:
                    c = self.simplify(c, st)
                if c is not T and c is not F:
                    if os.environ.get("CN24_PEEL"):
                        print("not unrolled:", self.frames[-1].fn["q"], n.get("l"), show(c)[:300])
                    break
                c = self.simplify(self.cond(n["c"], st), st)
                if c is F:
                    done = True
                    break
            inner = []
            self.stmt(n["b"], st, inner)
            conts = [x.st for x in inner if x.kind == "continue"]
            brk += [x.st for x in inner if x.kind == "break"]
            out.extend(x for x in inner if x.kind not in ("continue", "break"))
            se, _ = self.merge([x for x in [st] + conts if not x.dead])
            if se is None:
                st.dead = True
                done = True
                break
            if se is not st:
                st.become(se)
            if n.get("n"):
                self.ev(n["n"], st, discard=True)
        if not done:
            st.become(st0)
            del self.effects[eff0:]
            del out[out0:]
            return False
        if brk:
            m, _ = self.merge([x for x in [st] + brk if not x.dead])
            if m is None:
                st.dead = True
            elif m is not st:
                st.become(m)
        return True

    def peel_range(self, n, rlv, t, st, out):
        """unroll a range-based loop over a container with a known number of elements"""
        if is_array(t):
            cnt = num(int(t.rstrip()[:-1].split("[")[-1]))
            base = mk("arr", rlv)
        else:
            v = self.vec(rlv, st)
            cnt = self.load(fld(v, "#size"), st)
            base = mk("vdata", v)
        if not is_num(cnt):
            if os.environ.get("CN24_PEEL"):
                print("not unrolled:", self.frames[-1].fn["q"], n.get("l"), show(cnt)[:300])
            return False
        fr = self.frames[-1]
        brk = []
        for i in range(int(cnt.a[0])):
            ellv = el(base, num(i))
            v = n["v"]
            if is_ref(v["t"]):
                fr.vars[v["id"]] = ellv
            else:
                self.bind_var(v, st, self.value_at(ellv, v["t"], st))
            inner = []
            self.stmt(n["b"], st, inner)
            conts = [x.st for x in inner if x.kind == "continue"]
            brk += [x.st for x in inner if x.kind == "break"]
            out.extend(x for x in inner if x.kind not in ("continue", "break"))
            se, _ = self.merge([x for x in [st] + conts if not x.dead])
            if se is None:
                st.dead = True
                break
            if se is not st:
                st.become(se)
        if brk:
            m, _ = self.merge([x for x in [st] + brk if not x.dead])
            if m is None:
                st.dead = True
            elif m is not st:
                st.dead = False
                st.become(m)
        return True

    @staticmethod
    def collapse(o):
        """number of nested loops a directive spreads over the threads"""
        if "collapse" in o:
            return o["collapse"]
        for c in o.get("clauses", []):
            if c.get("c") == "collapse":
                for x in _ast(c.get("v")):
                    if x.get("k") == "int":
                        return int(x["v"])
        return 1

    def parallel(self, L, n, st, mod, brk_mod, k, effects, R):
        """what the iterations of a loop that may run in parallel have in common"""
        fr = self.frames[-1]
        own = set()

        def refs(x):
            if isinstance(x, dict):
                if x.get("k") == "ref" and x.get("id") in fr.vars:
                    own.add(fr.vars[x["id"]])
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        refs(v)
            elif isinstance(x, list):
                for v in x:
                    refs(v)
        i = n.get("i") or {}
        for x in i.get("v", []) if i.get("k") == "decl" else []:
            if x.get("id") in fr.vars:
                own.add(fr.vars[x["id"]])
        if n["k"] == "for":
            refs(n.get("n", {}).get("a") if isinstance(n.get("n"), dict) else None)
        for c in L.omp.get("clauses", []):
            if c.get("c") in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                refs(c.get("v"))
        shared = []
        for lv in list(mod) + [x for x in brk_mod if x not in mod]:
            x = lv
            while x.op in ("fld", "arr") or (x.op == "el" and x.a[0].op in ("vdata", "arr", "addr")):
                x = x.a[0].a[0] if x.op == "el" else x.a[0]
            v = mod.get(lv)
            if v is not None and v.op == "phi" and v.a[0] is k and v.a[1] is lv:
                continue
            if x in own or (x.op == "var" and not self.exists(x, st)):
                continue
            lv, v = subst(lv, R), subst(v, R) if v is not None else None
            if occurs(lv, k) or any(y.op == "phi" and y.a[0] is k for y in walk(lv)):
                continue
            if v is not None and any(y.op == "eq0" and any(q is k for m in as_poly(y.a[0]) for q, _ in m) for y in walk(v)):
                L.unsure = True         # perhaps the work of a single iteration
                continue
            shared.append(lv)
        L.shared = tuple(shared)
        PARALLEL.append(L)
        L.private = tuple(e.d["ptr"] for e in effects if e.kind == "new") + \
            tuple({r for e in effects if e.kind == "store" for r in self.roots(e.d["lv"]) if r.op == "var" and not self.exists(r, st)})

    def finish_loop(self, L, n, st, s, se, breaks, others, cterm, docond, e0, prelen, out):
        k = L.k
        # every phi of this loop that is still mentioned anywhere
        seen_t = set()
        phis = {}

        def collect(t):
            if isinstance(t, (Term, tuple)):
                for x in walk(t, seen_t):
                    if x.op == "phi" and x.a[0] is k:
                        phis[x] = x.a[1]
        for x in ([se] if se is not None else []) + [b.st for b in breaks] + [x.st for x in others]:
            for a, b in x.env.items():
                collect(a)
                collect(b)
            collect(x.pc)
        for x in others:
            collect(x.val)
        for e in self.effects[e0:]:
            collect(e.pc)
            for v in e.d.values():
                collect(v)
            for l in e.loops:
                for v in (l.n, l.brk, l.early, l.cond):
                    collect(v)
        collect(cterm)
        collect(docond)
        mod = {}
        havoc = set()
        all_states = ([se] if se is not None else []) + [b.st for b in breaks] + [x.st for x in others]
        if se is not None:
            for lv, v in se.env.items():
                mod[lv] = v
        brk_mod = {}
        for b in breaks:
            for lv, v in b.st.env.items():
                brk_mod.setdefault(lv, None)
        stored = {}
        for x in all_states:
            for b, lvs in x.stored.items():
                stored.setdefault(b, set()).update(lvs)
        R = {}

        def is_local_to_body(lv):
            return lv.op == "var" and not self.exists(lv, st)

        def pending(t):
            return [x for x in walk(t) if x.op == "phi" and x.a[0] is k]

        def loopvar(t):
            return any(x is k or (x.op == "phi" and x.a[0] is k) or (x.op in ("ldl",) and x.a[-1] is k) for x in walk(t))

        def atomic():
            # carried values that are still open stay whole while their addresses are rewritten
            m = {p: p for p in phis}
            m.update(R)
            return m

        def interferes(lv, lv2):
            inter = False
            for r in self.roots(lv2)[0:] + self.roots(lv):
                for b, lvs in stored.items():
                    if b is r or ptr_parts(subst(b, R))[0] is r:
                        if r is lv2 or r is lv:
                            inter = True
                        elif "havoc" in lvs or r.op not in ("var",):
                            if lvs == {lv}:
                                continue
                            inter = True
            return inter

        def resolve_unmodified():
            ch = False
            for p, lv in list(phis.items()):
                if p in R:
                    continue
                lv2 = subst(lv, R)
                if pending(lv2):
                    continue
                if lv in mod or lv in brk_mod and se is None:
                    # value carried around the loop, unless the address varies
                    if lv.op == "el" and any(x is k for x in walk(lv2)):
                        R[p] = self.load(lv2, st)   # own element, first touched in this iteration
                        ch = True
                    elif lv2 is not lv and False:
                        pass
                    continue
                # not rewritten under this very name: do stores in the body interfere?
                if interferes(lv, lv2):
                    R[p] = mk("ldl", lv2, mk("lv", L.line), k)
                else:
                    R[p] = self.load(lv2, st)
                ch = True
            return ch

        def carried():
            return [p for p, lv in phis.items() if p not in R and lv in mod]

        def classify_induction():
            ch = False
            for p in carried():
                lv = phis[p]
                if pending(subst(lv, R)):
                    continue
                v = subst(mod[lv], atomic())
                if v is p:
                    R[p] = self.load(lv, st)
                    ch = True
                    continue
                pb, po = ptr_parts(v)
                if pb is p and v is not p:
                    if not loopvar(po):
                        R[p] = padd(self.load(lv, st), mul(po, k))
                        ch = True
                    continue
                if not is_numeric(v):
                    continue
                d = sub(v, p)
                if not loopvar(d):
                    R[p] = add(self.load(lv, st), mul(d, k))
                    ch = True
            return ch

        for _ in range(12):
            a = resolve_unmodified()
            b = classify_induction()
            if not (a or b):
                break
        if L.omp is not None:
            self.parallel(L, n, st, mod, brk_mod, k, self.effects[e0:], R)
        # ---- trip count -------------------------------------------------
        C = subst(cterm, R)
        early = F
        N = None
        if L.kind == "do":
            if se is None:
                N = ONE
            else:
                Cd = subst(docond, R)
                N, early2 = self.trip(Cd, k)
                if N is not None:
                    N = add(N, ONE)
                    if early2 is not F:
                        N = None
        else:
            N, early = self.trip(C, k)
        if N is None:
            if not pending(C) and not occurs(C, k) and L.kind != "do":
                # loop-invariant condition
                N = mk("trip", C, mk("u", self.nid())) if C is not T else mk("trip", T, mk("u", self.nid()))
            else:
                cc = C if L.kind != "do" else subst(docond, R)
                cc = transform(cc, lambda x: mk("self", x.a[1]) if x.op == "phi" and x.a[0] is k else None)
                N = mk("trip", abstract(cc, k), mk("u", 0), height(cc))
            early = F
            L.cond = C
        L.n = N
        single = (se is None and not breaks) or (se is None)
        # ---- other carried values ----------------------------------------
        final = {}

        def fin(p, lv):
            """value after N iterations, given classification"""
            return final.get(lv)
        changed = True
        rounds = 0
        while changed and rounds < 10:
            changed = False
            rounds += 1
            if resolve_unmodified():
                changed = True
            if classify_induction():
                changed = True
            for p in carried():
                lv = phis[p]
                if pending(subst(lv, R)):
                    continue
                v = subst(mod[lv], atomic())
                pend = pending(v)
                v0 = self.load(lv, st)
                if not pend:
                    # value of the previous iteration
                    prev = subst(v, {k: sub(k, ONE)})
                    R[p] = ite(ge0(sub(k, ONE)), prev, v0)
                    changed = True
                    continue
                if any(x is not p for x in pend):
                    continue
                r = self.reduce(p, v, k, N, v0)
                if r is not None:
                    R[p], final[lv] = r
                    changed = True
        # everything else: a joint recurrence
        rest = [p for p in carried() if not pending(subst(phis[p], R))]
        if rest:
            # unmodified memory read at an address that is itself carried around the loop
            m = atomic()
            for p, lv in phis.items():
                if p in R or p in rest or lv in mod:
                    continue
                lv2 = subst(lv, R)
                if pending(lv2) and all(x in rest for x in pending(lv2)) and not interferes(lv, lv2):
                    m[p] = self.load(lv2, st)
            bodies = {p: subst(mod[phis[p]], m) for p in rest}
            deps = {p: [x for x in pending(bodies[p]) if x in bodies] for p in rest}
            for p in rest:
                clo, work = [p], [p]
                while work:
                    for d in deps[work.pop()]:
                        if d not in clo:
                            clo.append(d)
                            work.append(d)
                packed = mk("tuple", *[bodies[x] for x in clo])
                h = height(packed)
                packed = subst(packed, dict([(k, mk("bv", h))] + [(x, mk("self", h, i)) for i, x in enumerate(clo)]))
                inits = mk("tuple", *[self.load(subst(phis[x], R), st) for x in clo])
                deps[p] = deps[p]
                final[phis[p]] = mk("jmu", N, inits, packed, h)
                R_p = mk("jmu", k, inits, packed, h)
                bodies.setdefault("R", {})[p] = R_p
            R.update(bodies["R"])
        resolve_unmodified()
        for p, lv in phis.items():
            if p not in R:
                R[p] = mk("ldl", subst(lv, R), mk("lv", L.line), k)
        memo = {}

        def S(t):
            return subst(t, R, memo)
        # ---- rewrite effects ----------------------------------------------
        guardset = set(C.a if C.op == "and" else (C,))
        guard0 = set(cterm.a if cterm.op == "and" else (cterm,))
        effs = self.effects[e0:]
        del self.effects[e0:]
        inv_lvs = {}
        for lv in mod:
            lv2 = S(lv)
            if not any(x is k for x in walk(lv2)):
                inv_lvs[lv2] = lv
        kept = []
        # the domain of the loop implies its own condition
        dom = and_(*guardset) if N.op != "trip" else T
        brkc = F
        if breaks or early is not F:
            bc = []
            for b in breaks:
                bc.append(self.relpc(b.st.pc, prelen, S, guard0, guardset))
            if early is not F:
                bc.append(early)
            brkc = or_(*bc)
        L.brk = or_(L.brk, brkc)
        retc = []
        for x in others:
            if x.kind in ("return", "throw", "exit"):
                retc.append(self.relpc(x.st.pc, prelen, S, guard0, guardset))
        L.early = or_(*([L.brk] + retc)) if retc else L.brk
        for e in effs:
            e.pc = self.subst_pc(e.pc, S, guard0, guardset, prelen)
            if e.pc is None:
                continue
            e.d = {a: (S(b) if isinstance(b, Term) else _map_tuple(b, S)) for a, b in e.d.items()}
            for l in e.loops:
                if l is not L and l.n is not None and not getattr(l, "_done_%s" % id(L), False) if False else False:
                    pass
            if e.kind == "store" and e.d["lv"] in inv_lvs and e.d["lv"].op != "var" and len(e.loops) and e.loops[-1] is not None:
                # replaced by one store after the loop, unless iterations can leave early
                if inv_lvs[e.d["lv"]] in final or True:
                    kept.append((e, True))
                    continue
            kept.append((e, False))
        # inner loops' bounds mention this loop's phis
        seen = set()
        for e, _ in kept:
            for l in e.loops:
                if l is not L and l not in seen and L in e.loops and e.loops.index(l) > e.loops.index(L):
                    seen.add(l)
                    l.n = S(l.n)
                    l.brk = S(l.brk)
                    l.early = S(l.early)
                    l.cond = S(l.cond)
        # ---- state after the loop -------------------------------------------
        has_break = brkc is not F
        anyb = F
        if has_break:
            anyb = bind("ex", k, N, brkc)
        firstk = bind("first", k, N, brkc) if has_break else None
        after = {}
        for lv, v in mod.items():
            if is_local_to_body(lv):
                continue
            lv2 = S(lv)
            if any(x is k for x in walk(lv2)):
                continue
            if lv in final:
                vN = S(final[lv])
            else:
                p = mk("phi", k, lv)
                v0 = self.load(lv2, st)
                vv = S(v)
                if p in R and lv in phis:
                    # induction: closed form at k = N
                    cf = R[p]
                    vN = subst(cf, {k: N})
                    if vN.op == "ite" or contains(vN, lambda x: x.op == "ind"):
                        vN = self.last(vv, k, N, v0, L)
                else:
                    vN = self.last(vv, k, N, v0, L)
            after[lv2] = vN
        if has_break:
            for lv in set(mod) | set(brk_mod):
                if is_local_to_body(lv):
                    continue
                lv2 = S(lv)
                if any(x is k for x in walk(lv2)):
                    continue
                vs, cs = [], []
                for b in breaks:
                    bv = b.st.env.get(lv)
                    bv = S(bv) if bv is not None else (R.get(mk("phi", k, lv)) if mk("phi", k, lv) in R else
                                                       (S(mk("phi", k, lv)) if mk("phi", k, lv) in phis else self.entry_value(lv2, lv, mod, R, k, st, after, N)))
                    vs.append(bv)
                    cs.append(self.relpc(b.st.pc, prelen, S, guard0, guardset))
                if early is not F:
                    pk = mk("phi", k, lv)
                    vs.append(R[pk] if pk in R else self.entry_value(lv2, lv, mod, R, k, st, after, N))
                    cs.append(early)
                bval = vs[-1]
                for v_, c_ in list(zip(vs, cs))[-2::-1]:
                    bval = self.safe_ite(c_, v_, bval)
                bval = subst(bval, {k: firstk})
                nval = after.get(lv2, self.load(lv2, st))
                after[lv2] = self.safe_ite(anyb, bval, nval)
        # loop with an invariant trip of exactly one iteration etc. need no special care
        todo = []
        for b in stored:
            todo += [(b, b2) for b2 in self.arms(ptr_parts(S(b))[0])]
        for lv2 in [x for x in after if x.op in ("el", "fld") and self.chosen(x) is not None]:
            todo += [(lv2, b2) for b2 in self.arms(self.chosen(lv2))]
            del after[lv2]
        for b, b2 in todo:
            lvs = stored.get(b, ())
            b2 = ptr_parts(b2)[0]
            if any(x is k for x in walk(b2)):
                # which object is touched depends on the iteration: drop what is known below its root
                r = self.roots(b2)[-1]
                for x in [x for x in st.env if x.op != "var" and r in self.roots(x)]:
                    if x not in after:
                        del st.env[x]
                st.ver[r] = mk("h", self.nid())
                continue
            if b2.op == "var" or is_local_to_body(b2):
                continue
            if lvs == {b}:
                continue
            for x in [x for x in st.env if b2 in self.roots(x) and x not in after and x is not b2]:
                del st.env[x]
            st.ver[b2] = mk("sv", b2.id, self.nid())
            st.stored.setdefault(b2, set()).update({S(x) if isinstance(x, Term) else x for x in lvs})
        grouped = {}
        for e, fold in kept:
            if fold and not has_break and not retc and e.d["lv"] in after:
                grouped[e.d["lv"]] = e
                continue
            self.effects.append(e)
        pcs = [self.relpc(x.st.pc, prelen, S, guard0, guardset) for x in others]
        for lv2, v in after.items():
            st.env[lv2] = v
            st.stored.setdefault(lv2 if lv2.op != "el" else lv2.a[0], set()).add(lv2)
            if lv2 in grouped:
                e = grouped[lv2]
                ne = Effect("store", st.pc, tuple(self.loops), e.line, e.file, e.fn, {"lv": lv2, "val": v, "op": "loop"}, e.stack)
                self.effects.append(ne)
        # ---- exits ----------------------------------------------------------------
        stay = T
        for x, c in zip(others, pcs):
            if c is F:
                continue
            exq = bind("ex", k, N, c)
            ns = st.clone()
            fk = bind("first", k, N, c)
            for lv, v in x.st.env.items():
                if is_local_to_body(lv):
                    continue
                lv2 = subst(S(lv), {k: fk})
                ns.env[lv2] = subst(S(v), {k: fk})
            self.assume(ns, exq)
            ns.dead = False
            val = subst(S(x.val), {k: fk}) if isinstance(x.val, Term) else x.val
            out.append(Exit(x.kind, ns, val, x.line, x.node))
            stay = and_(stay, not_(exq))
        if se is None and not breaks and L.kind == "do":
            st.dead = True
        elif N.op == "trip" and N.a[0] is T and not has_break:
            st.dead = True
        else:
            self.assume(st, stay)
        st.phis.update({})

    def entry_value(self, lv2, lv, mod, R, k, st, after, N):
        """value at the start of iteration k of a location rewritten each iteration without being read"""
        v0 = self.load(lv2, st)
        if lv in mod:
            v = subst(mod[lv], R)
            if occurs(v, k):
                return ite(ge0(sub(k, ONE)), subst(v, {k: sub(k, ONE)}), v0) if (is_numeric(v) and is_numeric(v0)) else v
            return v0 if v is v0 else self.safe_ite(ge0(sub(k, ONE)), v, v0)
        return v0

    def safe_ite(self, c, a, b):
        if a is b:
            return a
        if a.op in ("val", "obj") or b.op in ("val", "obj"):
            return mk("ite", c, a, b) if c not in (T, F) else (a if c is T else b)
        return ite(c, a, b)

    def last(self, v, k, N, v0, L):
        if not occurs(v, k):
            if v is v0:
                return v
            return self.safe_ite(ge0(sub(N, ONE)), v, v0) if N.op != "num" else (v if N.a[0] > 0 else v0)
        w = subst(v, {k: sub(N, ONE)})
        if N.op == "num":
            return w if N.a[0] > 0 else v0
        # conditional overwrite: last iteration where it happened is not expressible
        if v0.op in ("undef", "undefobj"):
            return w
        return self.safe_ite(ge0(sub(N, ONE)), w, v0)

    def relpc(self, pc, prelen, S, guard0, guardset):
        out = []
        for c in pc[prelen:]:
            if c in guard0:
                continue
            out.append(S(c))
        return and_(*out)

    def subst_pc(self, pc, S, guard0, guardset, prelen):
        out = []
        for i, c in enumerate(pc):
            if i >= prelen and c in guard0:
                continue
            x = S(c)
            if x is F:
                return None
            if x is T:
                continue
            for y in (x.a if x.op == "and" else (x,)):
                if y not in out:
                    out.append(y)
        return tuple(out)

    def trip(self, C, k):
        """-> (number of iterations, extra early-exit condition) or (None, F)"""
        parts = list(C.a) if C.op == "and" else [C]
        Ns, rest = [], []
        for c in parts:
            n = self.trip1(c, k)
            if n is None:
                rest.append(c)
            else:
                Ns.append(n)
        if not Ns:
            return None, F
        N = Ns[0]
        for x in Ns[1:]:
            N = minmax("min", N, x)
        return N, or_(*[not_(c) for c in rest]) if rest else F

    def trip1(self, c, k):
        if any(x.op == "phi" and x.a[0] is k for x in walk(c)):
            return None
        if c.op == "ge0":
            p = c.a[0]
            d = as_poly(p)
            lin = {}
            p0 = {}
            for m, co in d.items():
                ks = [(x, e) for x, e in m if x is k]
                if ks:
                    if ks[0][1] != 1:
                        return None
                    lin[tuple((x, e) for x, e in m if x is not k)] = co
                elif any(occurs(x, k) for x, e in m):
                    return None
                else:
                    p0[m] = co
            if not lin or len(lin) != 1:
                return None
            (m, co), = lin.items()
            if co >= 0:
                return None
            a = from_poly({m: -co})
            p0 = from_poly(p0)
            if a is ONE:
                return add(p0, ONE)
            return add(idiv(p0, a), ONE) if is_num(a) else idiv(add(p0, a), a)
        if c.op == "not" and c.a[0].op in ("eq0",):
            p = c.a[0].a[0]
            d = as_poly(p)
            co = d.pop(((k, 1),), None)
            if co is None or abs(co) != 1 or any(occurs(x, k) for m in d for x, _ in m):
                return None
            return scale(from_poly(d), -co)
        return None

    def reduce(self, p, v, k, N, v0):
        """carried value p with update v: recognise sums, products, extrema, any/all"""
        def has(t):
            return occurs(t, p)
        if is_bool(v) or v.op in ("or", "and"):
            tb = mk("tb", p)
            for op in ("or", "and"):
                if v.op == op and tb in v.a:
                    f = (or_ if op == "or" else and_)(*[x for x in v.a if x is not tb])
                    if not has(f):
                        b0 = to_bool(v0)
                        kk = fresh("j")
                        g = subst(f, {k: kk})
                        if op == "or":
                            return or_(b0, bind("ex", kk, k, g)), or_(b0, bind("ex", k, N, f))
                        return and_(b0, not_(bind("ex", kk, k, not_(g)))), and_(b0, not_(bind("ex", k, N, not_(f))))
            return None
        if not is_numeric(v):
            return None
        if v.op in ("max", "min") and p in v.a:
            f = minmax(v.op, *[x for x in v.a if x is not p])
            if not has(f):
                kk = fresh("j")
                return (minmax(v.op, v0, bind("red" + v.op, kk, k, subst(f, {k: kk}))),
                        minmax(v.op, v0, bind("red" + v.op, k, N, f)))
            return None
        d = sub(v, p)
        if not has(d):
            kk = fresh("j")
            return (add(v0, bind("sum", kk, k, subst(d, {k: kk}))), add(v0, bind("sum", k, N, d)))
        # product
        q = as_poly(v)
        if all(any(x is p and e == 1 for x, e in m) for m in q):
            f = from_poly({tuple((x, e) for x, e in m if x is not p): c for m, c in q.items()})
            if not has(f):
                kk = fresh("j")
                return (mul(v0, bind("prod", kk, k, subst(f, {k: kk}))), mul(v0, bind("prod", k, N, f)))
        return None

    # ------------------------------------------------------- declarations --
    def bind_var(self, v, st, val):
        fr = self.frames[-1]
        lv = mk("var", "%s@%d.%d" % (v["name"], fr.no, v["id"]))
        fr.vars[v["id"]] = lv
        st.env[lv] = self.snap(val, st) if self.concrete else val
        return lv

    def decl(self, v, st, node):
        fr = self.frames[-1]
        t = v["t"]
        if v.get("static"):
            fr.vars[v["id"]] = mk("gvar", fr.fn["q"] + "::" + v["name"])
            return
        if is_ref(t):
            if "init" in v:
                fr.vars[v["id"]] = self.lv_or_temp(v["init"], st)
            return
        lv = mk("var", "%s@%d.%d" % (v["name"], fr.no, v["id"]))
        fr.vars[v["id"]] = lv
        for x in [x for x in st.env if x is not lv and lv in self.roots(x)]:
            del st.env[x]
        st.env[lv] = mk("undef", v["name"])
        if "init" in v:
            self.init_into(lv, v["init"], t, st)
        elif self.is_class(t):
            st.env[lv] = mk("obj", "default", t)
        if is_array(t):
            self.emit("array", st, node, lv=lv, t=t)

    def is_class(self, t):
        b = deref_type(t)
        return b in self.prog.records or b.startswith("std::") and not b.startswith("std::reverse_iterator<")

    def init_into(self, lv, n, t, st):
        """initialise object lv of type t from expression n"""
        k = n["k"]
        if k == "construct" and not is_string(t):
            cls = n["cls"]
            f = self.prog.lookup(n["fn"], self.frames[-1].file)
            if f is not None and f.get("body") is not None:
                st.env.pop(lv, None)
                st.env[lv] = mk("undef", "obj")
                st.env.pop(lv)
                if lv.op == "var":
                    # keep the variable alive for scoping purposes
                    self.store_alive(lv, st)
                self.emit("ctor", st, n, cls=cls, lv=lv)
                self.call_fn(f, addr(lv) if lv.op != "el" else addr(lv), n["a"], n, st)
                return
            if is_vector(t):
                self.vec_construct(lv, n, st)
                return
            if cls in self.prog.records:
                if len(n["a"]) == 1 and deref_type(n["a"][0].get("t", "")) == base_type(t):
                    v = self.ev(n["a"][0], st)
                    st.env[lv] = v
                    return
                self.default_fields(lv, cls, st)
                return
            v = self.ev(n, st)
            st.env[lv] = v
            return
        if k == "initlist":
            if is_array(t):
                et = base_type(t[:t.rindex("[")].strip())
                for i, x in enumerate(n["a"]):
                    if x["k"] == "initlist" and et in self.prog.records:
                        self.init_into(el(mk("arr", lv), num(i)), x, et, st)
                    else:
                        st.env[el(mk("arr", lv), num(i))] = self.ev(x, st)
                return
            b = base_type(t)
            if b in self.prog.records:
                for fd, x in zip(self.prog.records[b]["fields"], n["a"]):
                    st.env[fld(lv, fd["name"])] = self.ev(x, st)
                return
        v = self.ev(n, st)
        if is_vector(t) and v.op == "val":
            st.env[lv] = v
            return
        st.env[lv] = v

    def store_alive(self, lv, st):
        st.env[mk("fld", lv, "#alive")] = ONE

    def default_fields(self, lv, cls, st):
        st.env[lv] = mk("obj", "default", cls)
        r = self.prog.records[cls]
        vals = {}
        for fd in r["fields"]:
            if "init" in fd:
                fr = self.frames[-1]
                vals[fd["name"]] = self.ev(fd["init"], st)
            elif is_vector(fd["t"]):
                vals[fd["name"]] = None
            elif fd["t"] in self.prog.records and self.implicit_default(fd["t"]) and any("init" in x for x in self.prog.records[fd["t"]]["fields"]):
                vals[fd["name"]] = fd["t"]
            elif fd["t"] in self.prog.records and self.plain_ctor(fd["t"]) is not None:
                vals[fd["name"]] = self.plain_ctor(fd["t"])
        if vals:
            del st.env[lv]
            self.store_alive(lv, st)
            for k_, v in vals.items():
                if v is None:
                    st.env[fld(fld(lv, k_), "#size")] = ZERO
                elif isinstance(v, str):
                    self.default_fields(fld(lv, k_), v, st)
                elif isinstance(v, dict):
                    self.call_fn(v, addr(fld(lv, k_)), [], {"k": "construct", "l": v.get("line", 0), "a": []}, st)
                else:
                    st.env[fld(lv, k_)] = v

    def plain_ctor(self, cls):
        """the constructor without arguments that the program defines for cls"""
        for x in self.prog.fns.values():
            if x.get("ctor") and x.get("cls") == cls and x.get("body") is not None and not x["params"]:
                return x
        return None

    def implicit_default(self, cls):
        return not [x for x in self.prog.fns.values() if x.get("ctor") and x.get("cls") == cls and x.get("body") is not None]

    def vec(self, lv, st):
        for _ in range(6):
            v = self.peek(lv, st) if True else None
            if v is not None and v.op == "val":
                lv = v.a[0]
            else:
                break
        return lv

    def vec_construct(self, lv, n, st):
        a = n["a"]
        st.env.pop(lv, None)
        self.store_alive(lv, st)
        sz = fld(lv, "#size")
        if not a:
            st.env[sz] = ZERO
            return
        t0 = a[0].get("t", "")
        if is_vector(t0):
            src = self.vec(self.lv_or_temp(a[0], st), st)
            if self.concrete:
                src = self.snap(mk("val", src), st).a[0]
            st.env[sz] = self.load(fld(src, "#size"), st)
            st.env.pop(lv, None)
            st.env[lv] = mk("val", src)
            return
        if "initializer_list" in t0 or a[0]["k"] == "initlist":
            items = a[0].get("a", [])
            for i, x in enumerate(items):
                st.env[el(mk("vdata", lv), num(i))] = self.ev(x, st)
            st.env[sz] = num(len(items))
            return
        v = self.ev(a[0], st)
        if is_int(t0):
            st.env[sz] = v
            given = len(a) > 1 and "allocator" not in a[1].get("t", "")
            self.vec_fill(lv, ZERO, v, a[1] if given else None, n, st)
        elif len(a) > 1 and stdalgo.pointer_type(t0) is not None and stdalgo.pointer_type(a[1].get("t", "")) is not None:
            first, last = self.ev(a[0], st), self.ev(a[1], st)
            t = stdalgo.pointer_type(t0)
            count = self.arith("-", last, first, t, t, "long")
            st.env[sz] = count
            et = stdalgo.element_type(n.get("t", "")) or t.rstrip("* ").replace("const ", "")
            stdalgo.fill(self, mk("vdata", lv), count, None, et, n, st, source=first)
        else:
            st.env[sz] = mk("unk", self.nid())

    def vec_fill(self, lv, lo, count, value, n, st, t=None):
        """count elements from position lo on take a value (an expression, or the default)"""
        t = t or stdalgo.element_type(n.get("t", "")) or (value or {}).get("t", "").replace("const ", "").rstrip("& ")
        if value is not None and not isinstance(value, Term):
            value = self.ev(value, st)
        st.env[fld(lv, "#size")] = add(lo, count)
        if not t or self.is_class(t) or is_vector(t) or t.startswith("std::"):
            return          # default constructed
        if value is None:
            value = NULL if is_ptr(t) else ZERO
        stdalgo.fill(self, padd(mk("vdata", lv), lo), count, value, t, n, st)

    # -------------------------------------------------------- expressions --
    def cond(self, n, st):
        v = self.ev(n, st)
        return to_bool(v)

    def value_at(self, lv, t, st):
        b = deref_type(t)
        if is_array(t):
            return mk("arr", lv)
        if (b in self.prog.records or (b.startswith("std::") and not is_string(t) and not is_ptr(b) and not b.startswith("std::reverse_iterator<"))):
            v = self.peek(lv, st)
            if v is not None and v.op in ("val", "obj", "call", "ite") and not (v.op == "val" and b in self.prog.records and self.members_set(lv, st)):
                return v
            return mk("val", lv)
        return self.load(lv, st)

    def members_set(self, lv, st):
        s = st
        while s is not None:
            if any(x is not lv and lv in self.roots(x) for x in s.env):
                return True
            s = s.outer
        return False

    def lv_or_temp(self, n, st):
        """bind a reference to expression n"""
        k = n["k"]
        if k == "cast" and n.get("ck") in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "NoOp"):
            return self.lv_or_temp(n["e"], st)
        if k in ("ref", "idx") or k == "mem" or (k == "un" and n["op"] in ("*", "pre++", "pre--")) or k == "asg" or \
           (k in ("call", "mcall", "opcall") and is_ref(n.get("fn", {}).get("ret", ""))) or \
           (k == "cond" and self.is_class(n.get("t", "")) and n["a"]["k"] == "ref"):
            return self.lv(n, st)
        lv = mk("var", "tmp@%d" % self.nid())
        self.init_into(lv, n, n.get("t", ""), st)
        return lv

    def lv(self, n, st):
        k = n["k"]
        if k == "ref":
            dk = n.get("dk")
            if dk in ("local", "param"):
                fr = self.frames[-1]
                lv = fr.vars.get(n["id"])
                if lv is None:
                    lv = mk("var", "%s@%d.%d" % (n["name"], fr.no, n["id"]))
                    fr.vars[n["id"]] = lv
                return lv
            if dk == "global":
                return mk("gvar", n["q"])
            return mk("fnref", n.get("fn", {}).get("q", n.get("q", n["name"])))
        if k == "mem":
            if n.get("static"):
                return mk("gvar", n["q"])
            if n.get("arrow"):
                b = self.ev(n["b"], st)
                r = fld(el(b), n["name"])
            else:
                r = fld(self.lv_or_temp(n["b"], st), n["name"])
            v = self.peek(r, st)
            return v.a[0] if v is not None and v.op == "refto" else r
        if k == "idx":
            a, b = n["a"], n["b"]
            if not (is_ptr(a.get("t", "")) or is_array(a.get("t", ""))):
                a, b = b, a
            if is_array(a.get("t", "")):
                base = mk("arr", self.lv_or_temp(a, st))
            else:
                base = self.ev(a, st)
            i = self.ev(b, st)
            r = el(base, i)
            self.note_access(r, st, n)
            return r
        if k == "un" and n["op"] == "*":
            p = self.ev(n["a"], st)
            r = el(p)
            self.note_access(r, st, n)
            return r
        if k == "un" and n["op"] in ("pre++", "pre--"):
            self.ev(n, st)
            return self.lv(n["a"], st)
        if k == "asg":
            self.ev(n, st)
            return self.lv(n["a"], st)
        if k == "cast":
            return self.lv(n["e"], st)
        if k == "this":
            return self.ev(n, st)
        if k in ("call", "mcall", "opcall"):
            v = self.ev(n, st, raw=True)
            if is_ref(n.get("fn", {}).get("ret", "")):
                if v.op == "addr":
                    return v.a[0]
                return el(v)
            lv = mk("var", "tmp@%d" % self.nid())
            st.env[lv] = v
            return lv
        if k == "cond":
            c = self.simplify(self.cond(n["c"], st), st)
            if c is T or c is F:
                return self.lv(n["a"] if c is T else n["b"], st)
            a = self.lv(n["a"], st)
            b = self.lv(n["b"], st)
            return a if a is b else el(mk("ite", c, addr(a), addr(b)))
        lv = mk("var", "tmp@%d" % self.nid())
        self.init_into(lv, n, n.get("t", ""), st)
        return lv

    def note_access(self, lv, st, n):
        pass

    def is_log(self, n):
        x = n
        while x["k"] == "opcall" and x.get("op") == "<<" and x["a"]:
            x = x["a"][0]
        if x["k"] == "ref" and x.get("q") in ("std::cout", "std::cerr", "std::clog"):
            return x["q"]
        return None

    def ev(self, n, st, discard=False, raw=False):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisError("analysis budget exceeded in %s" % self.frames[-1].fn["q"])
        k = n["k"]
        f = getattr(self, "ev_" + k, None)
        if f is None:
            return mk("unk", self.nid())
        r = f(n, st, discard) if k == "opcall" else f(n, st)
        if k in ("call", "mcall", "opcall") and not raw and not discard and is_ref(n.get("fn", {}).get("ret", "")) and not st.dead:
            lv = r.a[0] if r.op == "addr" else el(r)
            return self.value_at(lv, n.get("t", ""), st)
        return r

    def ev_int(self, n, st):
        return num(int(n["v"]))

    def ev_apply(self, n, st):
        """a call of a function object (stdalgo)"""
        v = n["f"]["v"]
        if v.op == "lambda":
            ln, vs = self.closures[v.a[1]][:2]
            args = []
            for p, x in zip(ln["params"], n["a"]):
                if is_ref(p["t"]):
                    vs[p["id"]] = self.lv(x, st)
                    args.append(None)
                else:
                    args.append(self.ev(x, st))
            if any(a is None for a in args):
                # parameters that are references are bound to the elements themselves
                ps = [p for p, a in zip(ln["params"], args) if a is not None]
                ln2 = dict(ln, params=ps)
                i = self.nid()
                self.closures[i] = (ln2,) + tuple(self.closures[v.a[1]][1:])
                v = mk("lambda", ln.get("l", 0), i)
                args = [a for a in args if a is not None]
            return self.call_lambda(v, args, n, st)
        f = None
        if v.op in ("fnref", "fnptr"):
            f = next((x for x in self.prog.byq.get(v.a[0], []) if x.get("body") is not None and len(x["params"]) == len(n["a"])), None)
            if f is None:
                nm = str(v.a[0]).split("::")[-1]
                return self.external({"q": v.a[0], "name": nm, "ret": n["t"], "pt": [x["t"] for x in n["a"]]}, None, n["a"], n, st)
        if f is None:
            return mk("unk", self.nid())
        return self.call_fn(f, None, n["a"], n, st)

    def ev_float(self, n, st):
        try:
            return num(Fraction(n["v"]))
        except ValueError:
            return mk("sym", "float:" + n["v"])

    def ev_bool(self, n, st):
        return T if n["v"] else F

    def ev_null(self, n, st):
        return NULL

    def ev_str(self, n, st):
        return mk("str", n.get("v", ""))

    def ev_this(self, n, st):
        return self.frames[-1].this

    def ev_zero(self, n, st):
        return NULL if is_ptr(n.get("t", "")) else ZERO

    def ev_sizeof(self, n, st):
        return num(int(n["v"])) if "v" in n else mk("unk", self.nid())

    def ev_typeid(self, n, st):
        return mk("unk", self.nid())

    def ev_unk(self, n, st):
        for x in n.get("a", []):
            if isinstance(x, dict):
                self.ev(x, st)
        self.unresolved.append((n.get("cls"), self.frames[-1].fn["q"], n.get("l")))
        return mk("unk", self.nid())

    def ev_lambda(self, n, st):
        i = self.nid()
        fr = self.frames[-1]
        vs = dict(fr.vars)
        for c in n.get("cap", []):
            if isinstance(c, dict) and not c.get("byref") and c["id"] in vs:
                lv = mk("var", "cap@%d.%d" % (i, c["id"]))
                st.env[lv] = self.snap(self.value_at(vs[c["id"]], "", st) if st.env.get(vs[c["id"]]) is None else st.env[vs[c["id"]]], st)
                vs[c["id"]] = lv
        self.closures[i] = (n, vs, fr.this, fr.fn)
        return mk("lambda", n.get("l", 0), i)

    def call_lambda(self, t, args, n, st):
        """inline the body of a closure made earlier"""
        ln, vs, this, fn = self.closures[t.a[1]]
        f = {"q": fn["q"] + "::lambda", "params": ln["params"], "file": fn["file"], "line": ln.get("l", 0), "end": ln.get("l", 0),
             "body": ln["body"], "ret": "", "cls": fn.get("cls")}
        return self.call_fn(f, this, args, n, st, vs)

    def snap(self, v, st, depth=0):
        """copy of a class value (the source may change later)"""
        if v is None or v.op != "val" or depth > 4:
            return v
        src = self.vec(v.a[0], st)
        w = self.peek(src, st)
        if w is not None and w.op in ("obj", "call", "ite", "input") and src is v.a[0]:
            return w
        # members set after the value was copied take precedence over the copied ones
        chain = [v.a[0]]
        while chain[-1] is not src and len(chain) < 8:
            p = self.peek(chain[-1], st)
            if p is None or p.op != "val":
                break
            chain.append(p.a[0])
        layers = [(s, [x for x in st.env if x is not s and s in self.roots(x)]) for s in chain]
        if not any(ps for _, ps in layers[:-1]):
            layers = layers[-1:]
            if w is not None and w.op in ("obj", "call", "ite", "input"):
                return w
        if not any(ps for _, ps in layers):
            return v
        lv = mk("var", "copy@%d" % self.nid())
        src = layers[-1][0]
        if src in st.env:
            st.env[lv] = st.env[src]
        for s, parts in reversed(layers):
            m = {s: lv}
            for x in parts:
                st.env[subst(x, m)] = self.snap(st.env[x], st, depth + 1)
        return mk("val", lv)

    def ev_initlist(self, n, st):
        if len(n["a"]) == 1 and not is_array(n.get("t", "")) and not self.is_class(n.get("t", "")):
            return self.ev(n["a"][0], st)
        return mk("list", *[self.ev(x, st) for x in n["a"]])

    def ev_ref(self, n, st):
        dk = n.get("dk")
        if dk == "enum":
            return num(int(n["v"]))
        if dk == "fn":
            return mk("fnptr", n["fn"]["q"])
        if dk == "global" and "v" in n:
            return num(int(n["v"])) if base_type(n["t"]) != "bool" else (T if int(n["v"]) else F)
        lv = self.lv(n, st)
        return self.value_at(lv, n.get("t", ""), st)

    def ev_mem(self, n, st):
        lv = self.lv(n, st)
        return self.value_at(lv, n.get("t", ""), st)

    def ev_idx(self, n, st):
        lv = self.lv(n, st)
        return self.value_at(lv, n.get("t", ""), st)

    def ev_cond(self, n, st):
        c = self.simplify(self.cond(n["c"], st), st)
        if c is T:
            return self.ev(n["a"], st)
        if c is F:
            return self.ev(n["b"], st)
        s1, s2 = st.clone(), st.clone()
        self.assume(s1, c)
        self.assume(s2, not_(c))
        v1 = self.ev(n["a"], s1) if not s1.dead else None
        v2 = self.ev(n["b"], s2) if not s2.dead else None
        if v1 is None and v2 is None:
            st.dead = True
            return mk("undef", "dead")
        m, v = self.merge([s1, s2], [v1, v2])
        if m is None:
            st.dead = True
            return mk("undef", "dead")
        st.become(m)
        if v1 is not None and v2 is not None and not s1.dead and not s2.dead:
            v = self.safe_ite(c, v1, v2)
        return v

    def ev_throw(self, n, st):
        v = self.ev(n["e"], st) if n.get("e") else mk("void")
        self.emit("throw", st, n, val=v)
        self.frames[-1].throws.append(Exit("throw", st.clone(), v, n.get("l", 0), n))
        st.dead = True
        return mk("void")

    def ev_new(self, n, st):
        a = mk("alloc", self.nid(), n["at"])
        cnt = self.ev(n["n"], st) if n.get("n") else None
        self.emit("new", st, n, ptr=a, at=n["at"], arr=bool(n.get("arr")), n=cnt if cnt is not None else ONE)
        if n.get("init") and not n.get("arr"):
            self.init_into(el(a), n["init"], n["at"], st)
        return a

    def ev_delete(self, n, st):
        v = self.ev(n["e"], st)
        if self.dtors and not n.get("arr") and v.op not in ("null", "undef", "unk"):
            t = base_type(n["e"].get("t", "").rstrip("* "))
            t = self.dyn.get(v, v.a[1] if v.op == "alloc" and isinstance(v.a[1], str) else t)
            nz = not_(isnull(v))
            if t in self.prog.records and nz is not F:
                self.branch(st, nz, lambda s: self.destroy(el(v), t, s, n), lambda s: None)
        self.emit("delete", st, n, ptr=v, arr=bool(n.get("arr")), t=n["e"].get("t", ""))
        return mk("void")

    def ev_cast(self, n, st):
        ck = n.get("ck")
        e = n["e"]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase") and not is_ptr(n.get("t", "")):
            lv = self.lv_or_temp(e, st)
            return mk("val", lv)
        v = self.ev(e, st)
        if ck == "FloatingToIntegral":
            t = base_type(n.get("t", ""))
            x = trunc(to_num(v) if is_bool(v) else v)
            if t in ("unsigned char", "char", "signed char"):
                return mk("cvt8", x)
            return x
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return not_(eq0(v)) if not is_bool(v) else v
        if ck == "PointerToBoolean":
            return not_(isnull(v))
        if ck == "Dynamic" and self.isa:
            t = base_type(deref_type(n.get("t", "")))
            while t.endswith("*"):
                t = base_type(t[:-1])
            k = self.dyn.get(v, v.a[1] if v.op == "alloc" and isinstance(v.a[1], str) and v.a[1] in self.prog.records else None)
            if k is not None:
                return v if t == k or t in self.prog.ancestors(k) else NULL
            return ite(gt0(mk("call", "isa " + t, v)), v, NULL)
        if ck == "IntegralCast" or ck == "IntegralToFloating":
            if is_bool(v):
                return to_num(v)
            if base_type(e.get("t", "")) == "bool":
                return to_num(to_bool(v))
            t = base_type(n.get("t", ""))
            if is_num(v) and t in WIDTH and v.a[0] >= 2 ** WIDTH[t]:
                return num(int(v.a[0]) % 2 ** WIDTH[t])
            if self.narrow and t in ("unsigned short", "uint16_t", "png_uint_16") and base_type(e.get("t", "")) not in ("unsigned short", "unsigned char", "char"):
                return imod(v, num(65536))
            if t in ("unsigned char", "char", "signed char") and base_type(e.get("t", "")) not in ("unsigned char", "char", "signed char"):
                if is_num(v):
                    return v
                return mk("cvt8", v)
            return v
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            return mk("void")
        if ck == "IntegralToPointer" and is_num(v):
            return NULL if v.a[0] == 0 else mk("ptr", NULL, v)
        if ck == "IntegralToPointer":
            d = as_poly(v)
            for m, co in d.items():
                if len(m) == 1 and m[0][1] == 1 and co == 1 and (m[0][0].op in NONNUM or m[0][0].op == "pnum"):
                    x = m[0][0]
                    r = dict(d)
                    del r[m]
                    return padd(x.a[0] if x.op == "pnum" else x, from_poly(r))
            return v
        if ck == "PointerToIntegral":
            return v if v.op not in NONNUM else pnum(v)
        if ck == "BitCast" and self.bytes and is_ptr(n.get("t", "")):
            return self.as_bytes(v, n.get("t", ""), e.get("t", ""))
        return v

    @staticmethod
    def byte_of(v, i):
        return ZERO if v is ZERO else mk("byte", v, num(i))

    @staticmethod
    def as_bytes(v, t, t0):
        """a pointer to numbers that is used as a pointer to their bytes, and back"""
        new, old = [base_type(x.rstrip()[:-1]).replace("const ", "").strip() for x in (t, t0)] if is_ptr(t0) else (None, None)
        chars = ("char", "unsigned char", "signed char")
        if new in chars and (old in ("float", "Conv::datum", "datum")):
            return mk("bytes", v)
        return v

    def cmp(self, op, a, b, n, st):
        ta = n["a"].get("t", "")
        if self.cmp_fold is not None:
            r = self.cmp_fold(op, a, b)
            if r is not None:
                return r
        if is_bool(a) or is_bool(b) or base_type(ta) == "bool":
            a, b = to_bool(a), to_bool(b)
            if op == "==":
                return iff(a, b)
            if op == "!=":
                return not_(iff(a, b))
            a, b = to_num(a), to_num(b)
        if is_ptr(ta) or a.op in NONNUM or b.op in NONNUM:
            if a.op == "null":
                a, b = b, a
            if b.op == "null" and op in ("==", "!="):
                r = isnull(a)
                return r if op == "==" else not_(r)
            (ba, oa), (bb, ob) = ptr_parts(a), ptr_parts(b)
            if op in ("==", "!=") and ba is not bb and {ba.op, bb.op} <= {"alloc", "null", "addr", "str"} and "alloc" in (ba.op, bb.op):
                return F if op == "==" else T
            if op in ("==", "!=") and ba is not bb and ba.op == "addr" and bb.op == "addr" and ba.a[0].op == "gvar" and bb.a[0].op == "gvar":
                return F if op == "==" else T     # two named objects
            if ba is bb:
                a, b = oa, ob
            elif is_string(ta):
                pass
            else:
                a, b = pnum(a), pnum(b)
        d = sub(a, b)
        fl = is_float(n["a"].get("t", "")) or is_float(n["b"].get("t", ""))
        if op in ("==", "!="):
            r = eq0(d)
            if not fl and r.op == "eq0" and is_unsigned(ta) and (b is ZERO or a is ZERO):
                x = a if b is ZERO else b
                if x.op not in ("poly",):
                    r = not_(ge0(sub(x, ONE)))
            return r if op == "==" else not_(r)
        if fl:
            return {"<": lambda: gt0(neg(d)), ">": lambda: gt0(d), "<=": lambda: not_(gt0(d)), ">=": lambda: not_(gt0(neg(d)))}[op]()
        if is_unsigned(ta):
            if op == ">=" and b is ZERO:
                return T
            if op == "<" and b is ZERO:
                return F
        return {"<": lambda: ge0(sub(neg(d), ONE)), ">": lambda: ge0(sub(d, ONE)), "<=": lambda: ge0(neg(d)), ">=": lambda: ge0(d)}[op]()

    def ev_bin(self, n, st):
        op = n["op"]
        if op == ",":
            self.ev(n["a"], st)
            return self.ev(n["b"], st)
        if op in ("&&", "||"):
            a = self.cond(n["a"], st)
            a = self.simplify(a, st)
            if (a is F and op == "&&") or (a is T and op == "||"):
                return a
            s2 = st.clone()
            self.assume(s2, a if op == "&&" else not_(a))
            if s2.dead:
                return a
            b = self.cond(n["b"], s2)
            if s2.dead:
                # right operand never returns
                self.assume(st, not_(a) if op == "&&" else a)
                return F if op == "&&" else T
            changed = any(st.env.get(x) is not v for x, v in s2.env.items()) or s2.ver != st.ver
            if changed:
                s1 = st.clone()
                self.assume(s1, not_(a) if op == "&&" else a)
                m, _ = self.merge([s1, s2])
                if m is not None:
                    st.become(m)
            return and_(a, b) if op == "&&" else or_(a, b)
        a = self.ev(n["a"], st)
        b = self.ev(n["b"], st)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, a, b, n, st)
        return self.arith(op, a, b, n["a"].get("t", ""), n["b"].get("t", ""), n.get("t", ""))

    def arith(self, op, a, b, ta, tb, t):
        if op in ("+", "-") and (is_ptr(ta) or is_array(ta)) and not (is_ptr(tb) or is_array(tb)):
            return padd(a, b if op == "+" else neg(b))
        if op == "+" and (is_ptr(tb) or is_array(tb)):
            return padd(b, a)
        if op == "-" and is_ptr(ta) and is_ptr(tb):
            (ba, oa), (bb, ob) = ptr_parts(a), ptr_parts(b)
            if ba is bb:
                return sub(oa, ob)
            return mk("pdiff", a, b)
        if is_bool(a):
            a = to_num(a)
        if is_bool(b):
            b = to_num(b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if is_float(t) or is_float(ta) or is_float(tb):
                return fdiv(a, b)
            return idiv(a, b)
        if op == "%":
            return imod(a, b)
        if op == "<<" and is_num(b):
            return scale(a, 2 ** int(b.a[0]))
        if op == ">>" and is_num(b):
            return idiv(a, num(2 ** int(b.a[0])))
        if op in ("&", "|", "^"):
            if is_num(a) and is_num(b):
                x, y = int(a.a[0]), int(b.a[0])
                return num({"&": x & y, "|": x | y, "^": x ^ y}[op])
            return mk("bit" + op, *sorted((a, b), key=lambda x: x.id))
        return mk("op" + op, a, b)

    def ev_un(self, n, st):
        op = n["op"]
        if op == "*":
            lv = self.lv(n, st)
            return self.value_at(lv, n.get("t", ""), st)
        if op == "&":
            x = n["a"]
            if x["k"] == "ref" and x.get("dk") == "fn":
                return mk("fnptr", x["fn"]["q"])
            return addr(self.lv_or_temp(x, st))
        if op == "!":
            return not_(self.cond(n["a"], st))
        if op == "-":
            return neg(to_num(self.ev(n["a"], st)))
        if op == "+":
            return self.ev(n["a"], st)
        if op == "~":
            v = self.ev(n["a"], st)
            if is_num(v) and v.a[0].denominator == 1:
                bits = {"unsigned int": 32, "unsigned long": 64, "unsigned long long": 64}.get(base_type(n.get("t", "")))
                x = ~int(v.a[0])
                return num(x % 2 ** bits if bits and x < 0 else x)
            return mk("bit~", v)
        if op in ("pre++", "pre--", "post++", "post--"):
            lv = self.lv(n["a"], st)
            old = self.load(lv, st)
            t = n["a"].get("t", "")
            one = ONE if op.endswith("++") else num(-1)
            new = padd(old, one) if is_ptr(t) else add(to_num(old), one)
            self.store(lv, new, st, n, op="+")
            return new if op.startswith("pre") else old
        return self.ev(n["a"], st)

    def ev_asg(self, n, st):
        op = n["op"]
        t = n["a"].get("t", "")
        if op == "":
            b = self.ev(n["b"], st)
            lv = self.lv(n["a"], st)
            if base_type(t) == "bool":
                b = to_bool(b)
            self.store(lv, b, st, n)
            return b
        b = self.ev(n["b"], st)
        lv = self.lv(n["a"], st)
        old = self.load(lv, st)
        if is_bool(b) and not (op in ("|", "&") and base_type(t) == "bool"):
            b = to_num(b)
        if op in ("|", "&") and base_type(t) == "bool":
            v = (or_ if op == "|" else and_)(to_bool(old), to_bool(b))
        else:
            v = self.arith(op, old, b, t, n["b"].get("t", ""), n.get("ct", t))
            if is_int(t) and is_float(n.get("ct", t)):
                v = trunc(v)
        self.store(lv, v, st, n, op=op)
        return v

    def ev_construct(self, n, st):
        cls, a = n["cls"], n["a"]
        if cls == "std::basic_string" or cls.startswith("std::basic_string<"):
            if not a:
                return mk("str", "")
            if len(a) <= 2 and (is_string(a[0].get("t", "")) or is_ptr(a[0].get("t", "")) or is_array(a[0].get("t", ""))):
                v = self.ev(a[0], st)
                return v
            return mk("call", "string", *[self.ev(x, st) for x in a])
        if cls in self.prog.records and n["fn"]["name"] and len(a) == 1 and deref_type(a[0].get("t", "")) == cls and \
                self.prog.lookup(n["fn"], self.frames[-1].file) is None:
            return self.ev(a[0], st)
        if cls.startswith("std::") and len(a) == 1 and deref_type(a[0].get("t", "")) == deref_type(n.get("t", "")):
            return self.ev(a[0], st)
        if (cls.startswith("(lambda") or cls.startswith("std::function")) and len(a) == 1:
            return self.ev(a[0], st)
        if "__normal_iterator" in cls and a:
            return self.ev(a[0], st)
        lv = mk("var", "tmp@%d" % self.nid())
        if cls in self.prog.records or is_vector(n.get("t", "")):
            self.init_into(lv, n, n.get("t", ""), st)
            return mk("val", lv)
        vals = [self.arg(x, st) for x in a]
        self.emit("call", st, n, q=n["fn"]["q"], args=tuple(vals), obj=None, ctor=True)
        return mk("obj", n["fn"]["q"], mk("u", self.nid()), *vals)

    def arg(self, n, st):
        t = n.get("t", "")
        if (self.is_class(t) and not is_string(t)) and n["k"] in ("ref", "mem", "idx"):
            return mk("val", self.lv(n, st))
        return self.ev(n, st)

    # --------------------------------------------------------------- calls --
    def ev_call(self, n, st):
        fn = n.get("fn")
        if fn is None:
            c = self.ev(n["callee"], st)
            vals = tuple(self.arg(x, st) for x in n["a"])
            if c.op == "phi" and st.outer is not None:      # function pointers are constants in loops
                c = self.constant_outside(c.a[1], st, ("purefn", "fnptr")) or c
            if c.op == "purefn":        # an unknown function without effects
                return mk("call", "pure", *(c.a + vals))
            if c.op == "fnptr" and c.a[0] in self.hooks:
                return self.hooks[c.a[0]](self, {"q": c.a[0], "name": c.a[0]}, None, n["a"], n, st)
            if c.op == "fnptr":
                g = [f for f in self.prog.byq.get(c.a[0], []) if f.get("body") is not None and len(f["params"]) == len(vals)]
                if len(g) == 1:
                    return self.call_fn(g[0], None, list(vals), n, st)
            self.emit("call", st, n, q="*", callee=c, args=vals, obj=None)
            return mk("call", "*", mk("u", self.nid()), c, *vals)
        return self.do_call(fn, None, n["a"], n, st)

    def ev_mcall(self, n, st):
        fn = n.get("fn")
        if fn is None or "obj" not in n:
            return mk("unk", self.nid())
        o = n["obj"]
        if n.get("arrow") or is_ptr(o.get("t", "")):
            p = self.ev(o, st)
        else:
            p = addr(self.lv_or_temp(o, st))
        return self.do_call(fn, p, n["a"], n, st, o)

    def ev_opcall(self, n, st, discard=False):
        fn = n.get("fn")
        op = n["op"]
        a = n["a"]
        if op in ("<<", ">>") and a:
            lg = self.is_log(n) if op == "<<" else None
            if lg:
                self.emit("log", st, n, level=n.get("m") or lg)
                return mk("void")
            t0 = a[0].get("t", "")
            if "stream<" in t0:
                s = addr(self.lv_or_temp(a[0], st))
                if self.stream_hook is not None:
                    r = self.stream_hook(self, op, s, a[1], n, st)
                    if r is not NotImplemented:
                        return r
                if op == "<<":
                    v = self.arg(a[1], st)
                    self.emit("out", st, n, stream=s, val=v, t=a[1].get("t", ""))
                else:
                    x = a[1]
                    if "(" in x.get("t", ""):
                        return s
                    lv = self.lv(x, st)
                    v = mk("input", self.nid())
                    self.emit("in", st, n, stream=s, lv=lv, t=x.get("t", ""))
                    self.store(lv, v, st, n, quiet=True)
                return s
        if fn is None:
            vals = [self.arg(x, st) for x in a]
            return mk("call", "op" + op, *vals)
        if fn.get("cls") and not fn.get("static") and a:
            o = a[0]
            p = addr(self.lv_or_temp(o, st))
            return self.do_call(fn, p, a[1:], n, st, o)
        return self.do_call(fn, None, a, n, st)

    def do_call(self, fn, obj, args, n, st, objnode=None):
        q = fn["q"]
        h = self.hooks.get(q) or self.hooks.get(fn["name"]) if fn.get("repo") else self.hooks.get(q)
        if h is not None:
            r = h(self, fn, obj, args, n, st)
            if r is not NotImplemented:
                return r
        if fn["name"] == "operator()" and obj is not None and (fn.get("cls") or "").startswith("(lambda"):
            v = self.load(el(obj), st)
            if v.op == "lambda" and v.a[1] in self.closures:
                return self.call_lambda(v, args, n, st)
            from compare import Unknown
            raise Unknown("a closure that is not known is called at line %s" % n.get("l"))
        if not fn.get("repo"):
            return self.external(fn, obj, args, n, st, objnode)
        f = None
        if fn.get("virt") and not n.get("nonvirt"):
            cls = self.dyn.get(obj, obj.a[1] if obj.op == "alloc" and isinstance(obj.a[1], str) and obj.a[1] in self.prog.records else None)
            if cls is None and obj is not None and obj.op == "sym" and obj.a[0] == "this" and self.frames[0].fn.get("cls"):
                cls = self.this_cls
                if self.prog.subclasses(cls) and not self.exact_this:
                    subs = [c for c in self.prog.subclasses(cls) if any(f2["pt"] == fn["pt"] for f2 in self.prog.byq.get(c + "::" + fn["name"], []))]
                    if subs:
                        cls = None
            if cls is not None:
                f = self.prog.resolve_virtual(fn, cls)
            else:
                st_cls = fn.get("cls")
                if objnode is not None:
                    ot = deref_type(objnode.get("t", ""))
                    while ot.endswith("*") or ot.endswith("*const"):
                        ot = base_type(ot[:-1] if ot.endswith("*") else ot[:-6])
                    if ot in self.prog.records:
                        st_cls = ot
                impls = {}
                for c in [st_cls] + sorted(self.prog.subclasses(st_cls)):
                    g = self.prog.resolve_virtual(fn, c)
                    if g is not None:
                        impls[g["usr"]] = g
                if len(impls) == 1 and not self.is_abstract_gap(fn, st_cls):
                    f = next(iter(impls.values()))
        else:
            f = self.prog.lookup(fn, self.frames[-1].file)
        if fn["name"] == "operator=" and len(args) == 1 and fn.get("cls") in self.prog.records and (f is None or f.get("body") is None) and obj is not None and q not in self.opaque:
            # implicit: memberwise
            self.store(el(obj), self.snap(self.ev(args[0], st) if isinstance(args[0], dict) else args[0], st), st, n)
            return addr(el(obj))
        if f is None or f.get("body") is None or q in self.opaque or fn["name"] in self.opaque or \
                (self.inline_pred is not None and not self.inline_pred(f)) or \
                len(self.frames) > self.depth or (not self.concrete and any(fr.fn is f for fr in self.frames)):
            return self.opaque_call(fn, obj, args, n, st)
        return self.call_fn(f, obj, args, n, st)

    def is_abstract_gap(self, fn, cls):
        return False

    this_cls = None
    exact_this = False
    cmp_fold = None     # texts.py: positions in texts
    stream_hook = None  # texts.py: streams with known content
    trace_inner = False
    concrete = False    # unroll loops with known bounds and recursion (partial evaluation of bounded shapes)
    narrow = False      # conversions to 16 bits drop the rest
    peel_limit = 64
    bytes = False       # look at numbers byte by byte

    def opaque_call(self, fn, obj, args, n, st):
        pts = fn.get("pt", [])
        vals, havocs = [], []
        for i, x in enumerate(args):
            pt = pts[i] if i < len(pts) else x.get("t", "")
            if is_ref(pt):
                lv = self.lv_or_temp(x, st)
                vals.append(addr(lv))
                if not pt.startswith("const "):
                    havocs.append(lv)
            else:
                v = self.arg(x, st)
                vals.append(v)
                if is_ptr(pt) and not pt.startswith("const ") and v.op != "null" and fn.get("repo") is not None:
                    if v.op in ("addr",) or fn.get("repo"):
                        havocs.append(el(v))
        vals = tuple(vals)
        pure = (fn.get("const") or fn.get("static") or obj is None) and not havocs
        e = self.emit("call", st, n, q=fn["q"], obj=obj, args=vals, virt=bool(fn.get("virt")))
        ov = ()
        if obj is not None:
            olv = el(obj)
            ov = (self.vers(olv, st),)
            if not fn.get("const"):
                havocs.append(olv)
        for lv in havocs:
            self.kill_under(lv, st)
        if st.dead:
            return mk("void")
        if fn["ret"] == "void":
            return mk("void")
        u = () if pure and fn.get("const") else (mk("u", self.nid()),)
        r = mk("call", fn["q"], *(((obj,) if obj is not None else ()) + vals + tuple(x for x in ov if isinstance(x, Term)) + u))
        e.d["ret"] = r
        return r

    def call_fn(self, f, obj, args, n, st, closure=None):
        """inline repository function f"""
        if f.get("ctor") and f["q"] in self.hooks:
            r = self.hooks[f["q"]](self, f, obj, args, n, st)
            if r is not NotImplemented:
                return r
        fr = Frame(f, self.fno)
        if closure is not None:
            fr.vars.update(closure)
        self.fno += 1
        fr.this = obj
        fr.throws = []
        self.inlined.add(f["q"])
        binds = []
        for i, p in enumerate(f["params"]):
            if i >= len(args):
                break
            x = args[i]
            if isinstance(x, Term):
                binds.append((p, "v", x))
            elif is_ref(p["t"]):
                binds.append((p, "r", self.lv_or_temp(x, st)))
            else:
                lv = mk("var", "%s@%d.%d" % (p["name"], fr.no, p["id"]))
                if self.is_class(p["t"]) and not is_string(p["t"]):
                    v = self.ev(x, st)
                else:
                    v = self.ev(x, st)
                if base_type(p["t"]) == "bool":
                    v = to_bool(v)
                binds.append((p, "v", v))
        if st.dead:
            return mk("void")
        for p, kind, x in binds:
            if kind == "r":
                fr.vars[p["id"]] = x
            else:
                lv = mk("var", "%s@%d.%d" % (p["name"], fr.no, p["id"]))
                fr.vars[p["id"]] = lv
                st.env[lv] = x
        self.callstack.append((self.frames[-1].file, n.get("l", 0), f["q"]))
        self.frames.append(fr)
        outs = []
        if f.get("ctor"):
            self.ctor_inits(f, obj, st)
        self.stmt(f["body"], st, outs)
        self.frames.pop()
        self.callstack.pop()
        rets = [x for x in outs if x.kind == "return" and not x.st.dead]
        self.frames[-1].throws.extend(fr.throws)
        states = [x.st for x in rets]
        vals = [x.val if x.val is not None else mk("void") for x in rets]
        if not st.dead:
            states.append(st.clone())
            vals.append(mk("void") if f["ret"] == "void" or f.get("ctor") else mk("undef", "ret"))
        m, v = self.merge(states, vals)
        if m is None:
            st.dead = True
            return mk("void")
        st.become(m)
        return v

    def ctor_inits(self, f, obj, st):
        done = set()
        for i in f.get("inits", []):
            e = i.get("e")
            if i.get("field"):
                lv = fld(el(obj), i["field"])
                done.add(i["field"])
                if e is None:
                    continue
                if e["k"] == "construct":
                    r = self.prog.records.get(f["cls"], {})
                    ft = next((x["t"] for x in r.get("fields", []) if x["name"] == i["field"]), "")
                    self.init_into(lv, e, ft, st)
                    if is_string(ft) or (not self.is_class(ft)):
                        self.emit("store", st, {"l": i.get("l", 0)}, lv=lv, val=st.env.get(lv, mk("unk", 0)), op="")
                    continue
                r = self.prog.records.get(f["cls"], {})
                ft = next((x["t"] for x in r.get("fields", []) if x["name"] == i["field"]), "")
                if is_ref(ft):
                    st.env[lv] = mk("refto", self.lv_or_temp(e, st))
                    continue
                v = self.ev(e, st)
                self.store(lv, v, st, {"l": i.get("l", 0)})
            elif (i.get("base") or i.get("delegate")) and e is not None and e["k"] == "construct":
                g = self.prog.lookup(e["fn"], f["file"])
                if g is not None and g.get("body") is not None:
                    self.call_fn(g, obj, e["a"], {"l": i.get("l", 0)}, st)

    # ------------------------------------------------------ external calls --
    def external(self, fn, obj, args, n, st, objnode=None):
        q, name = fn["q"], fn["name"]
        cls = fn.get("cls", "") or ""
        olv = el(obj) if obj is not None else None
        if cls.startswith("std::vector"):
            r = self.vector_op(fn, olv, args, n, st)
            if r is not NotImplemented:
                return r
            if not fn.get("const"):
                from compare import Unknown
                raise Unknown("std::vector::%s at line %s is not modelled" % (name, n.get("l")))
        if cls.startswith("std::function") and olv is not None and name in ("operator()", "operator=", "operator bool"):
            if name == "operator=":
                v = self.ev(args[0], st)
                self.store(olv, v, st, n)
                return mk("addr", olv)
            v = self.load(olv, st)
            if name == "operator bool":
                if v.op == "lambda":
                    return T
            elif v.op == "lambda":
                return self.call_lambda(v, args, n, st)
            else:
                vals = tuple(addr(self.lv_or_temp(x, st)) if self.is_class(x.get("t", "")) else self.arg(x, st) for x in args)
                e = self.emit("call", st, n, q="*", callee=v, args=vals, obj=None)
                for x in vals:
                    if x.op == "addr":
                        self.kill_under(x.a[0], st)
                e.d["ret"] = mk("call", "*", mk("u", self.nid()), v, *vals)
                return e.d["ret"]
        if obj is None and q in stdalgo.NAMES:
            r = stdalgo.run(self, q, args, n, st)
            if r is not NotImplemented:
                return r
        if q in ("std::remove_if", "std::find", "std::find_if", "std::any_of", "std::all_of", "std::none_of", "std::count_if", "std::for_each") and obj is None:
            r = self.algorithm(name, args, n, st)
            if r is not NotImplemented:
                return r
        if "__normal_iterator" in cls or cls.startswith("std::reverse_iterator"):
            r = (self.reverse_iter_op if cls.startswith("std::reverse_iterator") else self.iter_op)(name, olv, args, n, st)
            if r is not NotImplemented:
                return r
        if name in ("operator==", "operator!=") and len(args) == 2 and obj is None:
            t0 = args[0].get("t", "")
            if "__normal_iterator" in t0 or "reverse_iterator" in t0:
                a, b = self.ev(args[0], st), self.ev(args[1], st)
                r = self.cmp("==", a, b, {"a": {"t": "int *"}, "b": {"t": "int *"}}, st)
                return r if name == "operator==" else not_(r)
            if is_string(t0) or is_string(args[1].get("t", "")):
                a, b = self.ev(args[0], st), self.ev(args[1], st)
                r = rebuild("seq", (a, b))
                return r if name == "operator==" else not_(r)
        if name == "operator-" and len(args) == 2 and "__normal_iterator" in args[0].get("t", ""):
            return self.arith("-", self.ev(args[0], st), self.ev(args[1], st), "int *", "int *", "long")
        if cls == "std::basic_string" or cls.startswith("std::basic_string<"):
            r = self.string_op(fn, olv, args, n, st)
            if r is not NotImplemented:
                return r
        if q in ("std::move", "std::forward"):
            lv = self.lv_or_temp(args[0], st)
            return addr(lv)
        if q == "std::swap":
            a, b = self.lv(args[0], st), self.lv(args[1], st)
            va, vb = self.snap(self.value_at(a, args[0]["t"], st), st), self.snap(self.value_at(b, args[1]["t"], st), st)
            self.store(a, vb, st, n)
            self.store(b, va, st, n)
            return mk("void")
        if q in ("std::max", "std::min", "fmax", "fmin", "std::fmax", "std::fmin", "fmaxf", "fminf") or \
                (name in ("max", "min", "fmax", "fmin") and len(args) == 2 and not cls):
            a, b = self.ev(args[0], st), self.ev(args[1], st)
            r = minmax("max" if "max" in name else "min", to_num(a), to_num(b))
            if is_ref(fn["ret"]):
                lv = mk("var", "tmp@%d" % self.nid())
                st.env[lv] = r
                return addr(lv)
            return r
        if name in PURE1 and len(args) == 1 and not cls:
            v = self.ev(args[0], st)
            nm = name
            if nm.endswith("f") and nm[:-1] in PURE1:
                nm = nm[:-1]
            if nm in ("fabs", "labs"):
                nm = "abs"
            if nm in ("native_exp", "half_exp"):
                nm = "exp"
            if nm == "abs" and is_num(v):
                return num(abs(v.a[0]))
            return mk("fn", nm, v)
        if name in ("pow", "powf", "pown", "native_powr") and len(args) == 2:
            a, b = self.ev(args[0], st), self.ev(args[1], st)
            if is_num(b) and b.a[0].denominator == 1 and 0 < b.a[0] <= 4:
                r = ONE
                for _ in range(int(b.a[0])):
                    r = mul(r, a)
                return r
            return mk("fn", "pow", a, b)
        if name in ("memcpy", "memmove", "memset"):
            vals = tuple(self.ev(x, st) for x in args)
            e = self.emit("call", st, n, q=name, obj=None, args=vals)
            self.mem_op(name, vals, args, st, n)
            return vals[0]
        if name in ("mmap", "mmap64", "malloc", "calloc", "aligned_alloc") and not cls:
            vals = tuple(self.ev(x, st) for x in args)
            r = mk("alloc", self.nid(), name)
            e = self.emit("call", st, n, q=q, obj=None, args=vals, ext=True, ret=r)
            return r
        if q in NORETURN:
            vals = tuple(self.ev(x, st) for x in args)
            self.emit("exit", st, n, q=q, args=vals)
            st.dead = True
            return mk("void")
        if q.startswith("std::numeric_limits"):
            t = q.split("<")[1].split(">")[0]
            return mk("limit", name, t)
        return self.opaque_ext(fn, obj, args, n, st)

    def elem_size(self, x):
        y = x
        while y["k"] == "cast":
            y = y["e"]
        t = base_type(y.get("t", ""))
        for c in ("*const", "* const", "*restrict", "*__restrict"):
            if t.endswith(c):
                t = t[:-len(c)] + "*"
        t = t[:-1].strip() if t.endswith("*") else t
        t = base_type(t)
        if is_array(y.get("t", "")):
            t = base_type(y["t"].split("[")[0])
        return {"float": 4, "int": 4, "unsigned int": 4, "char": 1, "unsigned char": 1, "double": 8, "unsigned long": 8}.get(t)

    def mem_op(self, name, vals, args, st, n):
        sz = self.elem_size(args[0])
        dst = vals[0]
        base, off = ptr_parts(dst)
        if self.bytes and is_num(vals[2]) and 0 <= vals[2].a[0] <= 4096:
            return self.byte_copy(name, vals, args, st, n)
        if name == "memset" and sz and is_num(vals[1]) and (vals[1] is ZERO or sz == 1):
            cnt = idiv(vals[2], num(sz))
            src = vals[1]
        elif name != "memset" and sz:
            cnt = idiv(vals[2], num(sz))
            src = None
        else:
            self.kill_under(base if base.op != "addr" else base.a[0], st)
            return
        fr = self.frames[-1]
        k = fresh("k")
        L = Loop(k, n.get("l", 0), fr.file, fr.fn["q"])
        L.n = cnt
        L.kind = name
        self.loops.append(L)
        val = src if src is not None else self.load(el(vals[1], k), st)
        self.emit("store", st, n, lv=el(dst, k), val=val, op="")
        self.loops.pop()
        for x in [x for x in st.env if x.op == "el" and x.a[0] is base]:
            del st.env[x]
        st.ver[base] = mk("sv", base.id, self.nid())
        st.stored.setdefault(base, set()).add("havoc")
        if dst.op == "addr":
            self.kill_under(dst.a[0], st)

    def byte_copy(self, name, vals, args, st, n):
        """a copy of a known number of bytes, one after the other"""
        from compare import Unknown
        def kind(x):
            while x["k"] == "cast":
                x = x["e"]
            t = x.get("t", "")
            return base_type(t.split("[")[0] if is_array(t) else t.rstrip()[:-1]).replace("const ", "").strip()
        chars = ("char", "unsigned char", "signed char", "void")
        cnt = int(vals[2].a[0])
        to = kind(args[0])
        if name == "memset":
            if to not in chars:
                raise Unknown("memset of %s" % to)
            new = [vals[1]] * cnt
            step = 1
        else:
            of = kind(args[1])
            if to == of and to not in chars:
                step = self.elem_size(args[0])
                if not step or cnt % step:
                    raise Unknown("memcpy of %s" % to)
                src = vals[1]
            elif to in chars:
                step = 1
                src = mk("bytes", vals[1]) if of in ("float", "Conv::datum", "datum") else vals[1]
                if of not in chars and src is vals[1]:
                    raise Unknown("memcpy of %s" % of)
            else:
                raise Unknown("memcpy of %s to %s" % (of, to))
            new = [self.load(el(padd(src, num(i))), st) for i in range(cnt // step)]
        for i, v in enumerate(new):
            self.store(el(padd(vals[0], num(i))), v, st, n)

    def opaque_ext(self, fn, obj, args, n, st):
        pts = fn.get("pt", [])
        vals, havocs = [], []
        for i, x in enumerate(args):
            pt = pts[i] if i < len(pts) else x.get("t", "")
            if is_ref(pt):
                if is_string(x.get("t", "")) and pt.startswith("const "):
                    vals.append(self.ev(x, st))
                    continue
                lv = self.lv_or_temp(x, st)
                if pt.startswith("const ") and not self.is_class(x.get("t", "")):
                    vals.append(self.load(lv, st))
                else:
                    vals.append(addr(lv))
                if not pt.startswith("const ") and not pt.endswith("&&"):
                    havocs.append(lv)
            else:
                v = self.arg(x, st)
                vals.append(v)
                if obj is None and fn["q"].startswith("std::") and stdalgo.pointer_type(pt) is not None and not stdalgo.pointer_type(pt).startswith("const "):
                    # an algorithm may change everything behind the iterators it is given
                    b = ptr_parts(v)[0]
                    havocs.append(b.a[0] if b.op == "addr" else b)
                    self.emit("havoc", st, n, q=fn["q"], ptr=v)
                elif is_ptr(pt) and not pt.startswith("const "):
                    havocs.append(el(v))
        vals = tuple(vals)
        e = self.emit("call", st, n, q=fn["q"], obj=obj, args=vals, ext=True)
        for lv in havocs:
            self.kill_under(lv, st)
            if lv.op in ("var", "fld", "gvar"):
                st.env[lv] = mk("input", self.nid())
        ov = ()
        if obj is not None:
            olv = el(obj)
            vv = self.vers(olv, st)
            ov = (vv,) if isinstance(vv, Term) else ()
            if not fn.get("const"):
                self.kill_under(olv, st)
        if fn["ret"] == "void":
            return mk("void")
        if is_ref(fn["ret"]) and obj is not None and deref_type(fn["ret"]) != "" and (fn["name"] in ("operator=", "operator+=", "write", "read", "seekg", "operator<<", "operator>>", "put", "get", "clear")):
            return obj
        r = mk("call", fn["q"], *(((obj,) if obj is not None else ()) + vals + ov + (() if fn.get("const") else (mk("u", self.nid()),))))
        e.d["ret"] = r
        return r

    def algorithm(self, name, args, n, st):
        """standard algorithms over containers whose contents are known"""
        a, b = self.ev(args[0], st), self.ev(args[1], st)
        (ba, ia), (bb, ib) = ptr_parts(a), ptr_parts(b)
        if ba is not bb or not is_num(ia) or not is_num(ib) or not (ib.a[0] - ia.a[0] <= 64):
            return NotImplemented
        lo, hi = int(ia.a[0]), int(ib.a[0])
        v = self.ev(args[2], st)
        if v.op != "lambda" and name != "find":
            return NotImplemented
        if name == "find" and self.is_class(args[2].get("t", "")):
            return NotImplemented
        keep = []
        seen = []
        for i in range(lo, hi):
            e = el(ba, num(i))
            if name in ("any_of", "all_of", "none_of", "count_if", "for_each"):
                if not self.closures[v.a[1]][0]["params"]:
                    return NotImplemented
                p = self.closures[v.a[1]][0]["params"][0]
                if is_ref(p["t"]):
                    self.closures[v.a[1]][1][p["id"]] = e
                    r = self.call_lambda(v, [], n, st)
                else:
                    r = self.call_lambda(v, [self.snap(self.value_at(e, p["t"], st), st)], n, st)
                if st.dead:
                    return mk("void")
                seen.append(r)
                continue
            if name == "find":
                c = to_bool(self.cmp("==", self.load(e, st), v, {"a": {"t": "int *"}, "b": {"t": "int *"}}, st))
            else:
                ptype = self.closures[v.a[1]][0]["params"][0]["t"]
                lvx = mk("var", "elem@%d" % self.nid())
                if is_ref(ptype) or is_ptr(ptype):
                    self.closures[v.a[1]][1][self.closures[v.a[1]][0]["params"][0]["id"]] = e
                    c = to_bool(self.call_lambda(v, [], n, st))
                else:
                    c = to_bool(self.call_lambda(v, [self.snap(self.value_at(e, ptype, st), st)], n, st))
            if c is not T and c is not F:
                return NotImplemented
            if name != "remove_if":
                if c is T:
                    return padd(ba, num(i))
                continue
            if c is F:
                keep.append(self.snap(self.value_at(e, self.closures[v.a[1]][0]["params"][0]["t"], st), st))
        if name == "for_each":
            return v
        if name == "count_if":
            return add(ZERO, *[ind(to_bool(x)) for x in seen])
        if name in ("any_of", "none_of"):
            r = or_(*[to_bool(x) for x in seen]) if seen else F
            return r if name == "any_of" else not_(r)
        if name == "all_of":
            return and_(*[to_bool(x) for x in seen]) if seen else T
        if name != "remove_if":
            return b
        for i, x in enumerate(keep):
            self.store(el(ba, num(lo + i)), x, st, n)
        return padd(ba, num(lo + len(keep)))

    def vector_op(self, fn, lv, args, n, st):
        name = fn["name"]
        lv = self.vec(lv, st) if name not in ("operator=",) else lv
        sz = fld(lv, "#size")
        data = mk("vdata", lv)
        if name == "size":
            return self.load(sz, st)
        if name == "empty":
            return not_(ge0(sub(self.load(sz, st), ONE)))
        if name in ("operator[]", "at"):
            i = self.ev(args[0], st)
            r = el(data, i)
            self.emit("vidx", st, n, lv=r, size=self.load(sz, st), checked=(name == "at"))
            return addr(r) if r.op != "el" else mk("addr", r)
        if name in ("begin", "cbegin", "data"):
            return data
        if name in ("end", "cend", "rbegin", "crbegin"):
            return padd(data, self.load(sz, st))
        if name in ("rend", "crend"):
            return data
        if name == "front":
            return mk("addr", el(data, ZERO))
        if name == "back":
            return mk("addr", el(data, sub(self.load(sz, st), ONE)))
        if name in ("push_back", "emplace_back"):
            v = self.arg(args[0], st) if args else ZERO
            if self.concrete:
                v = self.snap(v, st)
            s = self.load(sz, st)
            e = el(data, s)
            self.emit("call", st, n, q="std::vector::push_back", obj=addr(lv), args=(v,))
            self.store(e, v, st, n, quiet=self._vec_local(lv))
            self.store(sz, add(s, ONE), st, n, quiet=True)
            return mk("void")
        if name == "erase":
            p = self.ev(args[0], st)
            q2 = self.ev(args[1], st) if len(args) > 1 else padd(p, ONE)
            (bp, ip), (bq, iq) = ptr_parts(p), ptr_parts(q2)
            size = self.load(sz, st)
            if bp is data and bq is data and all(is_num(x) for x in (ip, iq, size)):
                for i in range(int(iq.a[0]), int(size.a[0])):
                    self.store(el(data, add(ip, num(i - int(iq.a[0])))), self.snap(self.load(el(data, num(i)), st), st), st, n)
                self.store(sz, sub(size, sub(iq, ip)), st, n, quiet=True)
                self.emit("call", st, n, q="std::vector::erase", obj=addr(lv), args=(p, q2))
                return p
            return NotImplemented
        if name == "pop_back":
            self.store(sz, sub(self.load(sz, st), ONE), st, n, quiet=True)
            return mk("void")
        if name == "clear":
            self.emit("call", st, n, q="std::vector::clear", obj=addr(lv), args=())
            self.store(sz, ZERO, st, n, quiet=True)
            return mk("void")
        if name == "resize":
            v = self.ev(args[0], st)
            self.emit("call", st, n, q="std::vector::resize", obj=addr(lv), args=(v,))
            size = self.load(sz, st)
            self.vec_fill(lv, size, ite(ge0(sub(v, size)), sub(v, size), ZERO), args[1] if len(args) > 1 else None, n, st, stdalgo.element_type(fn.get("cls") or ""))
            self.store(sz, v, st, n, quiet=True)
            return mk("void")
        if name in ("assign", "insert") and len(args) in (2, 3):
            where = None
            size = self.load(sz, st)
            a = args
            if name == "insert":
                where = self.ev(args[0], st)
                if where is not padd(data, size):
                    return NotImplemented       # only at the end
                a = args[1:]
            t = stdalgo.element_type(fn.get("cls") or "")
            lo = size if name == "insert" else ZERO
            if len(a) == 1:
                if name == "assign" or "initializer_list" in a[0].get("t", ""):
                    return NotImplemented
                self.emit("call", st, n, q="std::vector::push_back", obj=addr(lv), args=(self.ev(a[0], st),))
                self.vec_fill(lv, lo, ONE, a[0], n, st, t)
                self.store(sz, add(lo, ONE), st, n, quiet=True)
                return padd(data, lo)
            first = self.ev(a[0], st)
            pt = stdalgo.pointer_type(a[0].get("t", ""))
            back = "reverse_iterator<" in a[0].get("t", "") and "reverse_iterator<" in a[1].get("t", "")
            if (back or pt is not None) and len(a) == 2:
                (b0, i0), (b1, i1) = ptr_parts(first), ptr_parts(self.ev(a[1], st))
                count = sub(i0, i1) if back else sub(i1, i0)
                if b0 is b1 and is_num(count) and count.a[0] >= 0 and count.a[0] <= 4096:
                    count = int(count.a[0])
                    src = [el(b0, add(i0, num(-1 - i if back else i))) for i in range(count)]
                    vals = [self.snap(self.value_at(x, t or "", st), st) for x in src]
                    self.emit("call", st, n, q="std::vector::resize", obj=addr(lv), args=(add(lo, num(count)),))
                    for i, v in enumerate(vals):
                        self.store(el(data, add(lo, num(i))), v, st, n)
                    self.store(sz, add(lo, num(count)), st, n, quiet=True)
                    return padd(data, lo)
            if pt is None:
                if not is_int(a[0].get("t", "")):
                    return NotImplemented
                self.emit("call", st, n, q="std::vector::resize", obj=addr(lv), args=(add(lo, first),))
                self.vec_fill(lv, lo, first, a[1], n, st, t)
                self.store(sz, add(lo, first), st, n, quiet=True)
                return padd(data, lo)
            et = t or pt.rstrip("* ").replace("const ", "")
            if self.is_class(et) or et.startswith("std::"):
                return NotImplemented
            count = self.arith("-", self.ev(a[1], st), first, pt, pt, "long")
            self.emit("call", st, n, q="std::vector::resize", obj=addr(lv), args=(add(lo, count),))
            self.store(sz, add(lo, count), st, n, quiet=True)
            stdalgo.fill(self, padd(data, lo), count, None, et, n, st, source=first)
            return padd(data, lo)
        if name == "reserve":
            self.ev(args[0], st)
            return mk("void")
        if name == "operator=":
            v = self.ev(args[0], st)
            self.emit("call", st, n, q="std::vector::operator=", obj=addr(lv), args=(v,))
            self.kill_under(lv, st, bump=False)
            if v.op == "addr":
                v = mk("val", v.a[0])
            self.store(lv, v, st, n, quiet=True)
            return mk("addr", lv)
        return NotImplemented

    def _vec_local(self, lv):
        while lv.op == "fld":
            lv = lv.a[0]
        return lv.op == "var"

    def reverse_iter_op(self, name, lv, args, n, st):
        """a reverse iterator is the pointer behind its element"""
        v = self.load(lv, st) if lv is not None else None
        if name == "operator*":
            p = padd(v, num(-1))
            return addr(el(p)) if el(p).op != "el" else mk("addr", el(p))
        if name == "operator->":
            return padd(v, num(-1))
        if name in ("operator=", "base"):
            return self.iter_op(name, lv, args, n, st)
        if name in ("operator++", "operator--"):
            new = padd(v, ONE if name == "operator--" else num(-1))
            self.store(lv, new, st, n)
            return v if args else mk("addr", lv)
        if name in ("operator+", "operator-"):
            b = self.ev(args[0], st)
            return padd(v, b if name == "operator-" else neg(b))
        if name in ("operator+=", "operator-="):
            b = self.ev(args[0], st)
            self.store(lv, padd(v, b if name == "operator-=" else neg(b)), st, n)
            return mk("addr", lv)
        return NotImplemented

    def iter_op(self, name, lv, args, n, st):
        v = self.load(lv, st) if lv is not None else None
        if name == "operator*":
            return addr(el(v)) if el(v).op != "el" else mk("addr", el(v))
        if name == "operator->":
            return v
        if name in ("operator++", "operator--"):
            new = padd(v, ONE if name == "operator++" else num(-1))
            self.store(lv, new, st, n)
            return v if args else mk("addr", lv)
        if name in ("operator+", "operator-"):
            b = self.ev(args[0], st)
            return padd(v, b if name == "operator+" else neg(b))
        if name in ("operator+=", "operator-="):
            b = self.ev(args[0], st)
            self.store(lv, padd(v, b if name == "operator+=" else neg(b)), st, n)
            return mk("addr", lv)
        if name == "operator=":
            self.store(lv, self.ev(args[0], st), st, n)
            return mk("addr", lv)
        if name == "base":
            return v
        return NotImplemented

    def string_op(self, fn, lv, args, n, st):
        name = fn["name"]
        if name == "operator=":
            v = self.ev(args[0], st)
            self.store(lv, v, st, n)
            return mk("addr", lv)
        s = self.load(lv, st)
        if name == "compare" and len(args) == 1:
            b = self.ev(args[0], st)
            return mk("scmp", s, b)
        if name in ("compare", "size", "length", "empty", "find", "rfind", "substr", "find_first_of", "find_last_of", "find_first_not_of", "back", "front", "c_str", "data", "at") or \
                (name == "operator[]"):
            vals = tuple(self.ev(x, st) for x in args)
            if name == "c_str":
                return mk("cstr", s)
            if name in ("size", "length"):
                if s.op == "str":
                    return num(len(s.a[0]))
                return mk("slen", s)
            if name == "empty":
                return not_(ge0(sub(mk("slen", s), ONE))) if s.op != "str" else (T if not s.a[0] else F)
            self.emit("strop", st, n, q=name, s=s, args=vals)
            r = mk("call", "str." + name, s, *vals)
            if is_ref(fn["ret"]):
                return r
            return r
        if name in ("operator+=", "append", "push_back"):
            v = self.ev(args[0], st)
            self.store(lv, mk("cat", s, v), st, n)
            return mk("addr", lv)
        if name == "clear":
            self.store(lv, mk("str", ""), st, n)
            return mk("void")
        return NotImplemented

    # ------------------------------------------------------------ entry ----
    def run(self, f, this_cls=None, exact=False, args=None, this=None, st=None):
        """summarise function f with symbolic parameters"""
        self.effects, self.loops, self.callstack = [], [], []
        self.this_cls = this_cls or f.get("cls")
        self.exact_this = exact
        fr = Frame(f, self.fno)
        self.fno += 1
        fr.this = this if this is not None else sym("this")
        fr.throws = []
        self.frames = [fr]
        st = st or State()
        for i, p in enumerate(f["params"]):
            s = sym("p:" + (p["name"] or "arg%d" % i))
            if args and i in args:
                v = args[i]
                if is_ref(p["t"]):
                    fr.vars[p["id"]] = v
                else:
                    self.bind_var(p, st, v)
                continue
            if is_ref(p["t"]):
                fr.vars[p["id"]] = el(s)
            elif self.is_class(p["t"]) and not is_string(p["t"]) and not is_ptr(p["t"]):
                fr.vars[p["id"]] = el(s)
            else:
                self.bind_var(p, st, s if base_type(p["t"]) != "bool" else mk("tb", s))
        outs = []
        if f.get("ctor"):
            self.ctor_inits(f, fr.this, st)
        self.stmt(f["body"], st, outs)
        sm = Summary()
        sm.fn = f
        rets = [x for x in outs if x.kind == "return"]
        states = [x.st for x in rets]
        vals = [x.val if x.val is not None else mk("void") for x in rets]
        if not st.dead:
            e = Effect("return", st.pc, (), f["end"], f["file"], f["q"], {"val": mk("void"), "implicit": True}, ())
            self.effects.append(e)
            states.append(st)
            vals.append(mk("void") if f["ret"] == "void" or f.get("ctor") or f.get("dtor") else mk("undef", "ret"))
            outs.append(Exit("return", st, mk("void"), f["end"], None))
        m, v = self.merge(states, vals)
        sm.state, sm.ret = m, v
        sm.exits = outs
        sm.effects = self.finalise(self.effects)
        for i, e in enumerate(sm.effects):
            e.seq = i
        sm.inlined = set(self.inlined)
        self.frames = []
        return sm

    def finalise(self, effs):
        out = []
        for e in effs:
            if and_(*e.pc) is F:
                continue
            out.append(e)
        return out


def show_size(t):
    """cheap size measure"""
    n = 0
    for _ in walk(t):
        n += 1
        if n > 200:
            break
    return range(n)


def _map_tuple(b, S):
    if isinstance(b, tuple):
        return tuple(S(x) if isinstance(x, Term) else _map_tuple(x, S) for x in b)
    return b
