"""Hash-consed value terms in canonical form.

This is the value domain of the analysis: a global value numbering in which
arithmetic is kept as canonical polynomials over opaque atoms, comparisons as
normalised sign tests of such polynomials, and guards as and/or/not over those
tests.  Two program expressions get the same number exactly when their normal
forms coincide.  Nothing here enumerates paths or calls a solver.
"""
from fractions import Fraction
import itertools

_table = {}
_counter = itertools.count()


class Term:
    __slots__ = ("op", "a", "id", "_atoms", "_size")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op, a)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = next(_counter)
        t._atoms = None
        t._size = None
        _table[key] = t
    return t


_fresh = itertools.count()


def fresh(prefix):
    return mk("sym", "%s#%d" % (prefix, next(_fresh)))


def sym(name):
    return mk("sym", name)


# --------------------------------------------------------------- numbers ---

def num(v):
    v = Fraction(v)
    return mk("num", v)


ZERO = num(0)
ONE = num(1)


def is_num(t):
    return t.op == "num"


def as_poly(t):
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a)
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return (len(m), tuple((x.id, p) for x, p in m))


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda it: _mono_key(it[0]))
    return mk("poly", *items)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in as_poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def scale(t, k):
    k = Fraction(k)
    return from_poly({m: c * k for m, c in as_poly(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for x, p in m1 + m2:
        d[x] = d.get(x, 0) + p
    return tuple(sorted(((x, p) for x, p in d.items() if p != 0), key=lambda y: y[0].id))


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    d = {}
    pb = as_poly(b).items()
    for m1, c1 in as_poly(a).items():
        for m2, c2 in pb:
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    # indicator idempotence: [c]*[c] = [c]
    out = {}
    for m, c in d.items():
        if any(x.op == "ind" and p > 1 for x, p in m):
            m = tuple((x, 1 if x.op == "ind" else p) for x, p in m)
        out[m] = out.get(m, 0) + c
    return from_poly(out)


def content(d):
    from math import gcd
    g = 0
    l = 1
    for c in d.values():
        l = l * c.denominator // gcd(l, c.denominator)
    for c in d.values():
        g = gcd(g, int(c * l))
    return Fraction(g, l) if g else Fraction(1)


def fdiv(a, b):
    """real division"""
    if is_num(b) and b.a[0] != 0:
        return scale(a, 1 / b.a[0])
    if a is b:
        return ONE
    pb = as_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = from_poly({tuple((x, -p) for x, p in m): 1 / c})
        return mul(a, inv)
    lead = sorted(pb.items(), key=lambda it: _mono_key(it[0]))[-1][1]
    prim = from_poly({m: c / lead for m, c in pb.items()})
    inv = from_poly({((mk("grp", prim), -1),): 1 / lead})
    return mul(a, inv)


def _split_div(a, b):
    """a = q*b + r with q a polynomial taking every monomial divisible by b"""
    pb = as_poly(b)
    if len(pb) != 1:
        return ZERO, a
    (mb, cb), = pb.items()
    q, r = {}, {}
    for m, c in as_poly(a).items():
        dm = dict(m)
        ok = True
        for x, p in mb:
            if dm.get(x, 0) < p:
                ok = False
                break
        if ok:
            cq = c / cb
            if mb == ():
                # integer constant divisor: only split off integral multiples
                if cq.denominator != 1:
                    if m == ():
                        fl = c // cb
                        q[m] = q.get(m, 0) + fl
                        if c - fl * cb != 0:
                            r[m] = c - fl * cb
                        continue
                    r[m] = c
                    continue
            for x, p in mb:
                dm[x] -= p
            nm = tuple(sorted(((x, p) for x, p in dm.items() if p), key=lambda y: y[0].id))
            if cq.denominator == 1:
                q[nm] = q.get(nm, 0) + cq
            else:
                r[m] = c
        else:
            r[m] = c
    return from_poly(q), from_poly(r)


def idiv(a, b):
    if is_num(a) and is_num(b) and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        return num(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
    if b is ONE:
        return a
    q, r = _split_div(a, b)
    if r is ZERO:
        return q
    if q is not ZERO:
        return add(q, idiv(r, b))
    return mk("idiv", a, b)


def imod(a, b):
    if is_num(a) and is_num(b) and b.a[0] != 0:
        x, y = int(a.a[0]), int(b.a[0])
        return num(x - y * int(Fraction(x, y)))
    if b is ONE:
        return ZERO
    q, r = _split_div(a, b)
    if r is ZERO:
        return ZERO
    return mk("imod", r, b)


# -------------------------------------------------------------- booleans ---
T = mk("true")
F = mk("false")
BOOL_OPS = {"true", "false", "not", "and", "or", "ge0", "gt0", "eq0", "isnull", "tb",
            "seq", "ex", "peq"}


def is_bool(t):
    return t.op in BOOL_OPS


_nots = {}


def not_(t):
    if t is T:
        return F
    if t is F:
        return T
    r = _nots.get(t)
    if r is None:
        r = _nots[t] = _not(t)
    return r


def _not(t):
    if t.op == "not":
        return t.a[0]
    if t.op == "ge0":
        return ge0(sub(num(-1), t.a[0]))
    if t.op == "and":
        return or_(*[not_(x) for x in t.a])
    if t.op == "or":
        return and_(*[not_(x) for x in t.a])
    return mk("not", t)


def and_(*ts):
    out = {}
    for t in ts:
        for x in (t.a if t.op == "and" else (t,)):
            if x is F:
                return F
            if x is T:
                continue
            out[x] = 1
    # absorb: x and (x or y); x and (not x or y) -> x and y
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if not_(x) in out:
                return F
            if x.op == "or":
                if any(y in out for y in x.a):
                    del out[x]
                    changed = True
                    break
                rest = [y for y in x.a if not_(y) not in out]
                if len(rest) != len(x.a):
                    del out[x]
                    r = or_(*rest)
                    if r is F:
                        return F
                    for z in (r.a if r.op == "and" else (r,)):
                        if z is not T:
                            out[z] = 1
                    changed = True
                    break
    _theory_and(out)
    if len(out) == 0:
        return T
    if len(out) == 1:
        return next(iter(out))
    return mk("and", *sorted(out, key=lambda t: t.id))


def _base_const(p):
    d = as_poly(p)
    c = d.pop((), Fraction(0))
    return from_poly(d), c


def _theory_and(out):
    """keep only the strongest of several sign tests on the same polynomial"""
    best = {}
    for x in list(out):
        if x.op == "ge0":
            b, c = _base_const(x.a[0])
            if b in best:
                o, oc = best[b]
                if c < oc:
                    out.pop(o, None)
                    best[b] = (x, c)
                else:
                    out.pop(x, None)
            else:
                best[b] = (x, c)


def or_(*ts):
    out = {}
    for t in ts:
        for x in (t.a if t.op == "or" else (t,)):
            if x is T:
                return T
            if x is F:
                continue
            out[x] = 1
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if not_(x) in out:
                return T
            if x.op == "and":
                if any(y in out for y in x.a):
                    del out[x]
                    changed = True
                    break
                rest = [y for y in x.a if not_(y) not in out]
                if len(rest) != len(x.a):
                    del out[x]
                    r = and_(*rest)
                    if r is T:
                        return T
                    for z in (r.a if r.op == "or" else (r,)):
                        if z is not F:
                            out[z] = 1
                    changed = True
                    break
    best = {}
    for x in list(out):
        if x.op == "ge0":
            b, c = _base_const(x.a[0])
            if b in best:
                o, oc = best[b]
                if c > oc:
                    out.pop(o, None)
                    best[b] = (x, c)
                else:
                    out.pop(x, None)
            else:
                best[b] = (x, c)
    # p >= 0 or -p + c >= 0 with c >= -1  is a tautology over the integers
    for x in out:
        if x.op == "ge0":
            b, c = _base_const(x.a[0])
            o = best.get(neg(b))
            if o is not None and o[1] + c >= -1:
                return T
    if len(out) == 0:
        return F
    if len(out) == 1:
        return next(iter(out))
    # (c and a) or (c and b) -> c and (a or b)
    sets = [set(x.a) if x.op == "and" else {x} for x in out]
    common = set.intersection(*sets)
    if common:
        rest = [and_(*[y for y in s if y not in common]) for s in sets]
        return and_(*(list(common) + [or_(*rest)]))
    return mk("or", *sorted(out, key=lambda t: t.id))


def implies_(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return T
    return or_(and_(a, b), and_(not_(a), not_(b)))


def _split_ind(p, f):
    """case-split a sign test on the indicators inside its polynomial"""
    d = as_poly(p)
    c = None
    for m in d:
        for x, _ in m:
            if x.op == "ind":
                c = x
                break
        if c is not None:
            break
    if c is None:
        return None
    hi, lo = {}, {}
    for m, k in d.items():
        if any(x is c for x, _ in m):
            m2 = tuple(y for y in m if y[0] is not c)
            hi[m2] = hi.get(m2, 0) + k
        else:
            hi[m] = hi.get(m, 0) + k
            lo[m] = lo.get(m, 0) + k
    b = c.a[0]
    return or_(and_(b, f(from_poly(hi))), and_(not_(b), f(from_poly(lo))))


def ge0(p):
    """p >= 0 over the integers"""
    s = _split_ind(p, ge0)
    if s is not None:
        return s
    d = as_poly(p)
    if not d or (len(d) == 1 and () in d):
        return T if d.get((), 0) >= 0 else F
    c0 = d.pop((), Fraction(0))
    g = content(d)
    d = {m: c / g for m, c in d.items()}
    c0 = c0 / g
    import math
    d[()] = Fraction(math.floor(c0))
    p = from_poly(d)
    # a polynomial with only non-negative unsigned atoms cannot be decided here
    return mk("ge0", p)


def gt0(p):
    """p > 0 over the reals"""
    s = _split_ind(p, gt0)
    if s is not None:
        return s
    d = as_poly(p)
    if not d or (len(d) == 1 and () in d):
        return T if d.get((), 0) > 0 else F
    g = content(d)
    return mk("gt0", from_poly({m: c / g for m, c in d.items()}))


NONZERO = [None]


def eq0(p):
    s = _split_ind(p, eq0)
    if s is not None:
        return s
    d = as_poly(p)
    if not d:
        return T
    if len(d) == 1 and () in d:
        return F
    if NONZERO[0] is not None and NONZERO[0](d):
        return F
    g = content(d)
    lead = sorted(d.items(), key=lambda it: _mono_key(it[0]))[-1][1]
    if lead < 0:
        g = -g
    q = from_poly({m: c / g for m, c in d.items()})
    if q.op == "scmp":
        return mk("seq", *sorted(q.a, key=lambda t: t.id)) if q.a[0] is not q.a[1] else T
    return mk("eq0", q)


def to_num(b):
    """0/1 value of a boolean term"""
    if b is T:
        return ONE
    if b is F:
        return ZERO
    if is_bool(b):
        if b.op == "tb":
            return b.a[0]
        return ind(b)
    return b


def ind(c):
    if c is T:
        return ONE
    if c is F:
        return ZERO
    if c.op == "not":
        return sub(ONE, ind(c.a[0]))
    if c.op == "and":
        r = ONE
        for x in c.a:
            r = mul(r, ind(x))
        return r
    if c.op == "or":
        return sub(ONE, ind(not_(c)))
    if c.op == "ge0":
        n = ge0(sub(num(-1), c.a[0]))
        if n.id < c.id:
            return sub(ONE, mk("ind", n))
    return mk("ind", c)


def to_bool(t):
    if is_bool(t):
        return t
    if t.op == "num":
        return F if t.a[0] == 0 else T
    if t.op in ("ite", "sel"):
        return or_(and_(t.a[0], to_bool(t.a[1])), and_(not_(t.a[0]), to_bool(t.a[2])))
    if t.op == "ind":
        return t.a[0]
    if t.op == "poly":
        return not_(eq0(t))
    return mk("tb", t)


# ------------------------------------------------------------ ite / minmax ---

NONNUM = {"ptr", "addr", "str", "alloc", "null", "val", "obj", "undefobj", "ite", "bytes"}


def is_numeric(t):
    return t.op not in NONNUM and not is_bool(t)


def minmax(op, *ts):
    s = {}
    for t in ts:
        for x in (t.a if t.op == op else (t,)):
            s[x] = 1
    nums = [x for x in s if is_num(x)]
    if len(nums) > 1:
        k = (max if op == "max" else min)(x.a[0] for x in nums)
        for x in nums:
            del s[x]
        s[num(k)] = 1
    # constant-offset related arguments
    items = list(s)
    for x in items:
        for y in items:
            if x is not y and x in s and y in s:
                dlt = sub(x, y)
                if is_num(dlt):
                    keep = x if (dlt.a[0] > 0) == (op == "max") else y
                    s.pop(y if keep is x else x)
    if len(s) == 1:
        return next(iter(s))
    return mk(op, *sorted(s, key=lambda t: t.id))


def ite(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    if is_bool(a) or is_bool(b):
        a, b = to_bool(a), to_bool(b)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op in ("not",) :
        return ite(c.a[0], b, a)
    if c.op == "ge0":
        n = not_(c)
        if n.id < c.id:
            c, a, b = n, b, a
    if a.op in ("ite", "sel") and a.a[0] is c:
        a = a.a[1]
    if b.op in ("ite", "sel") and b.a[0] is c:
        b = b.a[2]
    if not (is_numeric(a) and is_numeric(b)):
        if a.op == "ptr" and b.op == "ptr" and a.a[0] is b.a[0]:
            return ptr(a.a[0], ite(c, a.a[1], b.a[1]))
        return mk("ite", c, a, b)
    if a is b:
        return a
    d = sub(a, b)
    # min / max recognition
    if c.op in ("ge0", "gt0"):
        p = c.a[0]
        base, k = _base_const(p)
        bd, kd = _base_const(d)
        def pos_scaled(u, v):
            # u = s*v with s>0 ?
            du, dv = as_poly(u), as_poly(v)
            if not du or set(du) != set(dv):
                return False
            m = next(iter(du))
            s = du[m] / dv[m]
            return s > 0 and all(du[x] == s * dv[x] for x in du)
        if c.op == "gt0" and pos_scaled(p, d) or c.op == "ge0" and bd is not ZERO and pos_scaled(base, bd) and p in (d, sub(d, ONE)):
            return minmax("max", a, b)
        nd = neg(d)
        if c.op == "gt0" and pos_scaled(p, nd) or c.op == "ge0" and bd is not ZERO and pos_scaled(base, neg(bd)) and p in (nd, sub(nd, ONE)):
            return minmax("min", a, b)
    if len(as_poly(d)) > ITE_LIMIT:
        return mk("sel", c, a, b)
    return add(b, mul(ind(c), d))


ITE_LIMIT = 16           # larger conditional values stay conditional instead of being multiplied out


# ---------------------------------------------------------------- pointers ---
NULL = mk("null")


def ptr(base, off):
    if base.op == "ptr":
        return mk("ptr", base.a[0], add(base.a[1], off))
    if base.op == "ite" :
        c, x, y = base.a
        return ite(c, ptr(x, off), ptr(y, off))
    return mk("ptr", base, off)


def ptr_parts(p):
    if p.op == "ptr":
        return p.a
    return p, ZERO


def padd(p, off):
    if p.op == "null":
        return p if off is ZERO else mk("ptr", p, off)
    b, o = ptr_parts(p)
    o = add(o, off)
    if o is ZERO:
        return b
    return ptr(b, o)


def el(p, off=ZERO):
    """lvalue p[off]"""
    b, o = ptr_parts(p)
    o = add(o, off)
    if b.op == "addr" and o is ZERO:
        return b.a[0]
    if b.op == "poly":
        b = choice(b)
    if b.op == "ite":
        # nothing is accessed through a null pointer
        for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
            if x is NULL:
                return el(y, o)
    return mk("el", b, o)


def choice(b):
    """a pointer chosen by a condition may have been written as arithmetic: back to the choice"""
    for m, _ in b.a:
        for t, p in m:
            if t.op == "ind":
                x, y = subst(b, {t: ONE}), subst(b, {t: ZERO})
                x, y = [choice(z) if z.op == "poly" else z for z in (x, y)]
                if "poly" in (x.op, y.op) or "num" in (x.op, y.op):
                    return b
                return mk("ite", t.a[0], x, y)
    return b


def addr(lv):
    if lv.op == "el":
        return ptr(lv.a[0], lv.a[1]) if lv.a[1] is not ZERO else lv.a[0]
    return mk("addr", lv)


def fld(lv, name):
    return mk("fld", lv, name)


# -------------------------------------------------------------- rebuilding ---

def rebuild(op, args):
    if op == "poly":
        r = ZERO
        for m, c in args:
            x = num(c)
            for t, p in m:
                if p > 0:
                    for _ in range(p):
                        x = mul(x, t)
                else:
                    for _ in range(-p):
                        x = fdiv(x, t if t.op != "grp" else t.a[0])
            r = add(r, x)
        return r
    f = {"ge0": ge0, "gt0": gt0, "eq0": eq0, "not": not_, "and": and_, "or": or_, "ite": ite, "sel": ite,
         "idiv": idiv, "imod": imod, "ptr": ptr, "el": el, "ind": ind, "tb": to_bool,
         "fld": fld, "addr": addr}.get(op)
    if f:
        return f(*args)
    if op in ("max", "min"):
        return minmax(op, *args)
    if op == "seq":
        if args[0] is args[1]:
            return T
        if args[0].op == "str" and args[1].op == "str":
            return F
        return mk("seq", *sorted(args, key=lambda t: t.id))
    if op == "isnull":
        return isnull(args[0])
    if op in ("sum", "prod", "redmax", "redmin", "ex", "first"):
        return quant(op, *args)
    if op == "grp":
        return mk("grp", args[0]) if args[0].op == "poly" else args[0]
    if op == "trunc":
        return trunc(args[0])
    if op == "pnum":
        return pnum(args[0])
    if op == "val":
        return mk("val", args[0])
    return mk(op, *args)


def trunc(x):
    if is_num(x):
        return num(int(x.a[0]))
    if x.op in ("trunc", "idiv", "imod"):
        return x
    return mk("trunc", x)


def pnum(p):
    """numeric value of a pointer: symbolic base plus offset"""
    b, o = ptr_parts(p)
    return add(mk("pnum", b), o)


def abstract(body, k):
    """replace symbol k by a bound variable; the bound variable is bv(height-1) of the result"""
    h = _height(body)
    return subst(body, {k: mk("bv", h)})


def isnull(p):
    if p.op == "null":
        return T
    if p.op in ("addr", "alloc", "str", "bytes"):
        return F
    if p.op == "ptr":
        return isnull(p.a[0])
    if p.op == "ite":
        return or_(and_(p.a[0], isnull(p.a[1])), and_(not_(p.a[0]), isnull(p.a[2])))
    if p.op == "sym" and p.a[0] == "this":
        return F
    return mk("isnull", p)


def _map_args(a, f):
    out = []
    ch = False
    for x in a:
        if isinstance(x, Term):
            y = f(x)
        elif isinstance(x, tuple):
            y = _map_args(x, f)
        else:
            y = x
        if y is not x:
            ch = True
        out.append(y)
    return tuple(out) if ch else a


def subst(t, m, memo=None):
    """replace terms by terms and re-normalise"""
    if memo is None:
        memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        na = _map_args(x.a, go)
        r = x if na is x.a else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def transform(t, f, memo=None):
    """bottom-up rewriting: f(rebuilt) -> replacement or None"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        na = _map_args(x.a, go)
        y = x if na is x.a else rebuild(x.op, na)
        z = f(y)
        r = y if z is None else z
        memo[x] = r
        return r
    return go(t)


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.a)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def occurs(t, s):
    return any(x is s for x in walk(t))


# --------------------------------------------------- bound-variable terms ---

def _height(t):
    h = 0
    for x in walk(t):
        if x.op in ("bv", "self") and isinstance(x.a[0], int):
            h = max(h, x.a[0] + 1)
    return h


def quant(op, n, body, h):
    """op over k in [0,n) of body, where body mentions the bound variable as bv(h)
    already abstracted (h = height)."""
    if op == "sum":
        if body is ZERO:
            return ZERO
    if op == "ex":
        if body is F or n is ZERO:
            return F
    return mk(op, n, body, h)


def bind(op, k, n, body, extra=None):
    """abstract symbol k in body and build a quantified term"""
    if op == "sum" and not occurs(body, k):
        return mul(body, pos(n))
    if op in ("redmax", "redmin") and not occurs(body, k):
        return mk(op + "c", n, body)
    if op == "ex" and not occurs(body, k):
        return and_(body, ge0(sub(n, ONE)))
    if op == "first" and not occurs(body, k):
        return ite(body, ZERO, n)
    if op == "sum":
        # pull factors that do not depend on k out of each monomial
        d = as_poly(body)
        r = ZERO
        groups = {}
        for m, c in d.items():
            inv = tuple((x, p) for x, p in m if not occurs(x, k))
            var = tuple((x, p) for x, p in m if occurs(x, k))
            groups.setdefault(inv, {})[var] = c
        if len(groups) > 1 or () not in groups:
            # only split on sign/constant when this yields a pure product
            for inv, g in groups.items():
                inner = from_poly(g)
                f = from_poly({inv: Fraction(1)})
                if any(v != () for v in g):
                    r = add(r, mul(f, _bind1(op, k, n, inner, extra)))
                else:
                    r = add(r, mul(f, mul(pos(n), inner)))
            return r
        lead = content(d)
        if lead != 1:
            return scale(_bind1(op, k, n, scale(body, 1 / lead), extra), lead)
        # sign
        items = sorted(d.items(), key=lambda it: _mono_key(it[0]))
        if items[-1][1] < 0:
            return neg(_bind1(op, k, n, neg(body), extra))
    return _bind1(op, k, n, body, extra)


def pos(n):
    return n


def _bind1(op, k, n, body, extra):
    h = _height(body)
    body = subst(body, {k: mk("bv", h)})
    return quant(op, n, body, h)


# ------------------------------------------------------------------- show ---

def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    o, a = t.op, t.a
    if d > 12:
        return "…"
    s = lambda x: show(x, d + 1)
    if o == "num":
        return str(a[0])
    if o == "sym":
        return a[0]
    if o == "bv":
        return "b%d" % a[0]
    if o == "poly":
        parts = []
        for m, c in a:
            ms = "*".join((s(x) if x.op not in ("poly",) else "(" + s(x) + ")") + ("^%d" % p if p != 1 else "") for x, p in m)
            if not m:
                parts.append(str(c))
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append("-" + ms)
            else:
                parts.append("%s*%s" % (c, ms))
        return "(" + " + ".join(parts).replace("+ -", "- ") + ")"
    if o == "ge0":
        return s(a[0]) + ">=0"
    if o == "gt0":
        return s(a[0]) + ">0"
    if o == "eq0":
        return s(a[0]) + "==0"
    if o == "not":
        return "!(" + s(a[0]) + ")"
    if o == "and":
        return "(" + " && ".join(s(x) for x in a) + ")"
    if o == "or":
        return "(" + " || ".join(s(x) for x in a) + ")"
    if o in ("ite", "sel"):
        return "(%s ? %s : %s)" % tuple(s(x) for x in a)
    if o == "ind":
        return "[" + s(a[0]) + "]"
    if o == "tb":
        return s(a[0])
    if o == "fld":
        b = s(a[0])
        return b + "." + a[1]
    if o == "el":
        return s(a[0]) + ("[" + s(a[1]) + "]" if a[1] is not ZERO else "[]")
    if o == "ld":
        return s(a[0]) + ("'%s" % (a[1],) if len(a) > 1 and a[1] else "")
    if o == "addr":
        return "&" + s(a[0])
    if o == "ptr":
        return "(" + s(a[0]) + "+" + s(a[1]) + ")"
    if o == "str":
        return repr(a[0])
    if o == "var":
        return "%s" % a[0]
    if o in ("sum", "prod", "redmax", "redmin", "ex"):
        return "%s[b%d<%s](%s)" % (o, a[2], s(a[0]), s(a[1]))
    if o == "call":
        return "%s(%s)" % (a[0].split("::")[-1], ",".join(s(x) for x in a[1:]))
    return o + "(" + ",".join(s(x) for x in a) + ")"
