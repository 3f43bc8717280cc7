"""Composition of function summaries over one symbolic heap.

A session is a sequence of calls (constructor, CreateOutputs, Connect,
FeedForward, ...) summarised on a shared symbolic state, so that later
summaries are expressed in the free symbols of the earlier ones (tensor
dimensions, constructor arguments) and not in private field names."""
from terms import *
from engine import Engine, State, Frame, is_ref, is_vector, base_type, is_string
from program import AnalysisError, NeverReturns


def nonempty_hook(sess):
    """while Tensor::Resize is summarised, take its element count to be positive;
    the assumption is recorded and every evaluation point has to satisfy it"""
    def pred(d):
        if not d or any(c < 0 for c in d.values()):
            return False
        q = from_poly(d)
        if q not in sess.nonempty:
            sess.nonempty.append(q)
        return True

    def h(E, fn, obj, args, n, st):
        if len(fn.get("pt", ())) < 2:
            return NotImplemented
        f = E.prog.lookup(fn, E.frames[-1].file)
        if f is None:
            return NotImplemented
        old = NONZERO[0]
        NONZERO[0] = pred
        try:
            return E.call_fn(f, obj, args, n, st)
        finally:
            NONZERO[0] = old
    return h


class CallResult:
    pass


class Session:
    def __init__(self, prog, opaque=(), hooks=None, depth=14, inline=None, nonempty=True, dtors=False):
        self.prog = prog
        self.nonempty = []
        hooks = dict(hooks or {})
        if nonempty:
            hooks.setdefault("Conv::Tensor::Resize", nonempty_hook(self))
        self.E = Engine(prog, opaque=opaque, hooks=hooks, depth=depth, inline=inline)
        self.E.trace_inner = False
        self.E.dtors = dtors
        self.st = State()
        self.assumed = []
        self.fns = []
        self.log = []          # effects of all calls so far

    # ---------------------------------------------------------------- calls
    def run(self, f, this=None, args=None, cls=None, keep=None):
        """summarise f on the session's state.  keep: predicate on Exit -> continue
        the session under that exit only"""
        E = self.E
        if f is None:
            raise AnalysisError("function to analyse not found")
        self.fns.append(f["q"])
        pre = self.st.clone()
        sm = E.run(f, this_cls=cls or f.get("cls"), exact=cls is not None, args=args, this=this, st=self.st)
        r = CallResult()
        r.pre, r.sm, r.effects, r.ret = pre, sm, sm.effects, sm.ret
        r.exits = sm.exits
        self.log.extend(sm.effects)
        if keep is not None:
            st2, vals = None, None
            cands = [x for x in sm.exits if x.kind == "return" and keep(x)]
            if not cands:
                raise AnalysisError("%s has no such outcome" % f["q"])
            m, v = E.merge([x.st for x in cands], [x.val for x in cands])
            self.st, r.ret = m, v
            if len(cands) == 1:
                self.assume(to_bool(cands[0].val))
        else:
            if sm.state is None:
                raise NeverReturns("%s never returns" % f["q"])
            self.st = sm.state
        self.st.dead = False
        r.post = self.st
        return r

    def assume(self, v):
        """continue under the condition v"""
        cs = [c for c in (v.a if v.op == "and" else (v,)) if c is not T and c is not F]
        m = {}
        for c in cs:
            m[c] = T
            if c.op != "not":
                m[not_(c)] = F
            if c not in self.assumed:
                self.assumed.append(c)
        if not m:
            return
        memo = {}
        env = self.st.env
        for k, x in list(env.items()):
            if isinstance(x, Term):
                y = subst(x, m, memo)
                if y is not x:
                    env[k] = y

    def assumptions(self):
        return list(self.assumed) + [ge0(sub(x, ONE)) for x in self.nonempty] + list(self.st.pc)

    def fork(self):
        s = Session.__new__(Session)
        s.prog, s.E = self.prog, self.E
        s.st = self.st.clone()
        s.assumed = list(self.assumed)
        s.nonempty = self.nonempty
        s.fns = self.fns
        s.log = list(self.log)
        return s

    # -------------------------------------------------------------- objects
    def obj(self, name):
        return addr(mk("gvar", name))

    def construct(self, cls, name, args, ptypes=None, this=None):
        """run the constructor of cls with len(args) parameters (or matching ptypes)"""
        p = this if this is not None else self.obj(name)
        self.E.dyn[p] = cls
        if not args and cls in self.prog.records and not [x for x in self.prog.fns.values() if x.get("ctor") and x.get("cls") == cls and x.get("body") is not None and not x["params"]]:
            self.default_object(p, cls)
            return p
        f = find_ctor(self.prog, cls, len(args), ptypes)
        self.run(f, this=p, args=dict(enumerate(args)), cls=cls)
        return p

    def default_object(self, p, cls):
        """implicit default construction: in-class initialisers, empty containers"""
        E = self.E
        fake = {"q": cls, "params": [], "cls": cls, "body": None, "file": self.prog.records[cls].get("file", ""), "line": self.prog.records[cls].get("line", 0)}
        fr = Frame(fake, E.fno)
        E.fno += 1
        fr.this = p
        fr.throws = []
        E.frames.append(fr)
        try:
            for b in self.prog.records[cls].get("bases", []):
                if b in self.prog.records:
                    E.default_fields(el(p), b, self.st)
            E.default_fields(el(p), cls, self.st)
        finally:
            E.frames.pop()

    def destroy(self, p, cls):
        """run the destructor of *p; -> effects"""
        d = [f for f in self.prog.byq.get(cls + "::~" + cls.split("::")[-1], []) if f.get("body") is not None]
        out = list(self.run(d[0], this=p, cls=cls).effects) if d else []
        r = self.prog.records.get(cls, {})
        for x in reversed(r.get("fields", [])):
            if x["t"] in self.prog.records:
                out += self.destroy(addr(fld(el(p), x["name"])), x["t"])
        for b in r.get("bases", []):
            out += self.destroy(p, b)
        return out

    def method(self, cls, name, nparams=None, pred=None):
        return find_method(self.prog, cls, name, nparams, pred)

    def vec(self, name, items):
        """a std::vector lvalue with the given elements"""
        lv = mk("gvar", name)
        self.st.env[fld(lv, "#size")] = num(len(items))
        for i, x in enumerate(items):
            self.st.env[el(mk("vdata", lv), num(i))] = x
        return lv

    def vec_items(self, lv):
        lv = self.E.vec(lv, self.st)
        n = self.E.load(fld(lv, "#size"), self.st)
        if not is_num(n):
            return None
        return [self.E.load(el(mk("vdata", lv), num(i)), self.st) for i in range(int(n.a[0]))]

    def get(self, p, *names):
        lv = el(p)
        for n in names:
            lv = fld(lv, n)
        return self.E.load(lv, self.st)

    def query(self, cls, name, p, args=None, nparams=None):
        """value returned by a const accessor on the current state (state unchanged)"""
        f = self.method(cls, name, nparams)
        s = self.fork()
        return s.run(f, this=p, args=args).ret


def find_ctor(prog, cls, n, ptypes=None):
    name = cls.split("::")[-1]
    # template arguments are not part of the constructor's name
    c = []
    for f in prog.byq.get(cls + "::" + name.split("<")[0], []) or [f for f in prog.fns.values() if f.get("ctor") and f.get("cls") == cls]:
        if not f.get("ctor") or f.get("body") is None:
            continue
        if len(f["params"]) != n:
            continue
        if ptypes and not all(pt in p["t"] for pt, p in zip(ptypes, f["params"])):
            continue
        c.append(f)
    if ptypes is None:
        c = [f for f in c if not any(base_type(p["t"].rstrip("& ")).replace("const ", "") == cls for p in f["params"])] or c
    if not c:
        raise AnalysisError("constructor of %s with %d parameters not found" % (cls, n))
    return c[0]


def find_method(prog, cls, name, nparams=None, pred=None):
    """method as seen from cls (own or inherited)"""
    for k in [cls] + list(prog.ancestors(cls)):
        c = [f for f in prog.byq.get(k + "::" + name, []) if f.get("body") is not None
             and (nparams is None or len(f["params"]) == nparams) and (pred is None or pred(f))]
        if c:
            return c[0]
    raise AnalysisError("method %s::%s not found" % (cls, name))
