"""Texts with a known skeleton and unknown numerals.

The abstract value of a std::string is a sequence of pieces: literal characters, and numerals
whose characters are unknown (only their alphabet is known).  Positions in such a text are
polynomials over the unknown lengths of the numerals, so std::string's searching and cutting
operations fold exactly, for all numerals at once; whatever would depend on the characters of
a numeral makes the analysis give up (AnalysisError), never guess."""
import re
from terms import *
from engine import Exit, is_string, is_int, is_float, base_type
from program import AnalysisError

NPOS = num(2 ** 64 - 1)
DIGITS = frozenset("0123456789")
ALPHABET = {"dig": DIGITS, "dec": DIGITS | frozenset(".+-e"),
            "word": frozenset(chr(c) for c in range(33, 127)) - frozenset("=;#?()")}


def lit(s):
    return mk("str", s)


def dig(v):
    """decimal numeral of the non-negative integer v"""
    return mk("dig", v)


def dec(v):
    """decimal numeral of the real number v"""
    return mk("dec", v)


def word(name):
    """a non-empty run of printable characters other than blanks and =;#?()"""
    return mk("word", sym(name))


def pieces(t):
    if t.op == "txt":
        return list(t.a)
    if t.op == "cstr":
        return pieces(t.a[0])
    if t.op == "str":
        return [t] if t.a[0] else []
    if t.op in ALPHABET:
        return [t]
    raise AnalysisError("text %s is not known" % (t,))


def text(*ps):
    out = []
    for p in ps:
        for x in ([lit(p)] if isinstance(p, str) else pieces(p)):
            if x.op == "str" and out and out[-1].op == "str":
                out[-1] = lit(out[-1].a[0] + x.a[0])
            else:
                out.append(x)
    if not out:
        return lit("")
    return out[0] if len(out) == 1 and out[0].op == "str" else mk("txt", *out)


def known(t):
    return t.op in ("txt", "str", "cstr") or t.op in ALPHABET


def plen(p):
    return num(len(p.a[0])) if p.op == "str" else mk("slen", p)


def length(t):
    r = ZERO
    for p in pieces(t):
        r = add(r, plen(p))
    return r


def locate(t, pos):
    """(piece index, offset) of a position; None when it lies behind the end"""
    ps = pieces(t)
    at = ZERO
    for i, p in enumerate(ps):
        d = sub(pos, at)
        if is_num(d):
            k = int(d.a[0])
            if k < 0:
                break
            if k == 0 or (p.op == "str" and k <= len(p.a[0])):
                return i, k
        at = add(at, plen(p))
    d = sub(pos, at)
    if is_num(d):
        if d.a[0] == 0:
            return len(ps), 0
        if d.a[0] > 0:
            return None
    if _surely_ge(d) or _surely_ge(neg(pos)):
        return None
    raise AnalysisError("position %s in a text depends on a numeral" % (pos,))


LONGEST = 10 ** 6       # numerals have between one and this many characters


def bounds(d):
    """interval of a position difference; None when it is not one"""
    lo = hi = 0
    for m, c in as_poly(d).items():
        if m == ():
            lo, hi = lo + c, hi + c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "slen":
            lo, hi = (lo + c, hi + c * LONGEST) if c > 0 else (lo + c * LONGEST, hi + c)
        else:
            return None
    return lo, hi


def _surely_ge(d):
    """d > 0 for all lengths"""
    b = bounds(d)
    return b is not None and b[0] > 0


def cmp_fold(op, a, b):
    if not (is_numeric(a) and is_numeric(b)):
        return None
    d = sub(a, b)
    if is_num(d):
        return None
    if not any(m and m[0][0].op == "slen" for m in as_poly(d)):
        return None
    r = bounds(d)
    if r is None:
        return None
    lo, hi = r
    t = {"==": (F if lo > 0 or hi < 0 else None), "!=": (T if lo > 0 or hi < 0 else None),
         "<": (T if hi < 0 else F if lo >= 0 else None), ">=": (F if hi < 0 else T if lo >= 0 else None),
         ">": (T if lo > 0 else F if hi <= 0 else None), "<=": (F if lo > 0 else T if hi <= 0 else None)}.get(op)
    return t


def at_most(a, b):
    """a <= b for certain / not for certain"""
    d = sub(b, a)
    if is_num(d):
        return d.a[0] >= 0
    if _surely_ge(d):
        return True
    if _surely_ge(neg(d)):
        return False
    raise AnalysisError("comparison of positions depends on a numeral")


def cut(t, lo, n=None):
    """substr; None = out of range"""
    ps = pieces(t)
    a = locate(t, lo)
    if a is None:
        return None
    b = None
    if n is not None and not (is_num(n) and (n.a[0] < 0 or n.a[0] >= 2 ** 62)):
        b = locate(t, add(lo, n))
    if b is None:
        b = (len(ps), 0)
    out = []
    for i, p in enumerate(ps):
        if i < a[0] or i > b[0]:
            continue
        if p.op == "str":
            x = a[1] if i == a[0] else 0
            y = b[1] if i == b[0] else len(p.a[0])
            if y > x:
                out.append(lit(p.a[0][x:y]))
        elif i < b[0]:
            out.append(p)
    return text(*out)


def start_of(t, i):
    r = ZERO
    for p in pieces(t)[:i]:
        r = add(r, plen(p))
    return r


def chars(t):
    """characters of a text as literals or alphabets (numerals: one or more of an alphabet)"""
    out = []
    for i, p in enumerate(pieces(t)):
        if p.op == "str":
            out += [(c, i, k) for k, c in enumerate(p.a[0])]
        else:
            out.append((p, i, 0))
    return out


def find(t, what, pos=ZERO, last=False):
    """position of the first (last) occurrence of the literal `what` at or after pos"""
    if what.op != "str":
        raise AnalysisError("search for a text with numerals")
    w = what.a[0]
    a = locate(t, pos)
    if a is None:
        return NPOS
    if w == "":
        return pos
    cs = chars(t)
    hits = []
    for s in range(len(cs)):
        c, i, k = cs[s]
        if (i, k) < a:
            continue
        state = "yes"
        for j, x in enumerate(w):
            if s + j >= len(cs):
                state = "no"
                break
            y = cs[s + j][0]
            if isinstance(y, str):
                if x != y:
                    state = "no"
                    break
                continue
            # a numeral takes part
            al = ALPHABET[y.op]
            if x not in al:
                state = "no"
                break
            state = "?"
            break
        if state == "?":
            if not (set(w) & ALPHABET[cs[s + j][0].op]):
                continue
            raise AnalysisError("search for %r meets a numeral" % w)
        if state == "yes":
            hits.append((i, k))
            if not last:
                break
    # an occurrence could also begin inside a numeral
    for s in range(len(cs)):
        c, i, k = cs[s]
        if not isinstance(c, str) and (i, k) >= a and w[0] in ALPHABET[c.op] and not (hits and not last and hits[0] < (i, k)):
            raise AnalysisError("search for %r meets a numeral" % w)
    if not hits:
        return NPOS
    i, k = hits[-1] if last else hits[0]
    return add(start_of(t, i), num(k))


def find_any(t, chs, pos=ZERO, negate=False, last=False):
    a = locate(t, pos) if not last else (0, 0)
    if a is None:
        return NPOS
    cs = [x for x in chars(t) if (x[1], x[2]) >= a]
    if last:
        cs = cs[::-1]
    for c, i, k in cs:
        if isinstance(c, str):
            if (c in chs) != negate:
                return add(start_of(t, i), num(k))
        else:
            al = ALPHABET[c.op]
            hit = (al & set(chs)) if not negate else (al - set(chs))
            if hit == al and not last:
                return start_of(t, i)
            if hit:
                raise AnalysisError("search meets a numeral")
    return NPOS


def compare(a, b):
    """-1, 0, 1 as std::string::compare"""
    if a.op == "pre":
        return compare_start(a.a[0], int(a.a[1].a[0]), b)
    if b.op == "pre":
        return -compare_start(b.a[0], int(b.a[1].a[0]), a)
    x, y = chars(a), chars(b)
    i = 0
    while True:
        if i >= len(x) or i >= len(y):
            if i >= len(x) and i >= len(y):
                return 0
            return -1 if i >= len(x) else 1
        p, q = x[i][0], y[i][0]
        if isinstance(p, str) and isinstance(q, str):
            if p != q:
                return -1 if p < q else 1
        elif p is q:
            nx = x[i + 1][0] if i + 1 < len(x) else None
            ny = y[i + 1][0] if i + 1 < len(y) else None
        else:
            al, be = ({p} if isinstance(p, str) else ALPHABET[p.op]), ({q} if isinstance(q, str) else ALPHABET[q.op])
            if al & be:
                raise AnalysisError("comparison meets a numeral")
            if max(al) < min(be):
                return -1
            if min(al) > max(be):
                return 1
            return 1          # different for certain, order unknown
        i += 1


def compare_start(s, n, t):
    """the first n characters of s against t"""
    x, y = chars(s), chars(t)
    for i in range(min(n, len(y))):
        if i >= len(x):
            return -1
        p, q = x[i][0], y[i][0]
        if isinstance(p, str) and isinstance(q, str):
            if p != q:
                return -1 if p < q else 1
            continue
        al, be = ({p} if isinstance(p, str) else ALPHABET[p.op]), ({q} if isinstance(q, str) else ALPHABET[q.op])
        if al & be:
            raise AnalysisError("comparison meets a numeral")
        return -1 if max(al) < min(be) else 1
    if n < len(y):
        return -1
    return 0 if n == len(y) or len(x) == len(y) else 1


def same(a, b):
    return compare(a, b) == 0


def number(t, real):
    """value a decimal conversion at the start of the text yields; (value, rest) or (None, t)"""
    ps = pieces(t)
    if ps and ps[0].op == "str":
        s = ps[0].a[0]
        m = re.match(r"[ \t\n]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)" if real else r"[ \t\n]*([+-]?\d+)", s)
        if m:
            if m.end() == len(s) and len(ps) > 1:
                raise AnalysisError("literal digits run into a numeral")
            from fractions import Fraction
            return num(Fraction(m.group(1)) if real else int(m.group(1))), cut(t, num(m.end()))
        if s.strip(" \t\n") == "" and len(ps) > 1:
            ps = ps[1:]
        else:
            if len(ps) > 1 and re.fullmatch(r"[ \t\n]*[+-.]*", s):
                raise AnalysisError("sign in front of a numeral")
            return None, t
    if not ps:
        return None, t
    p = ps[0]
    if p.op == "word":
        raise AnalysisError("number read from a word")
    if len(ps) > 1 and ps[1].op != "str":
        raise AnalysisError("adjacent numerals")
    nxt = ps[1].a[0][0] if len(ps) > 1 else ""
    if nxt and (nxt in DIGITS or (real and nxt in ".eE")):
        raise AnalysisError("numeral continued by literal characters")
    if p.op == "dec" and not real:
        return trunc(p.a[0]), text(*ps[1:])
    return p.a[0], text(*ps[1:])


def based(t, base):
    """value of a literal numeral in another base"""
    ps = pieces(t)
    if not is_num(base) or any(p.op != "str" for p in ps):
        raise AnalysisError("numeral in base %s" % show(base))
    b = int(base.a[0])
    m = re.match(r"[ \t\n]*([+-]?)(0[xX](?=[0-9a-fA-F]))?([0-9a-zA-Z]*)", "".join(p.a[0] for p in ps))
    if b == 0:
        b = 16 if m.group(2) else 8 if m.group(3).startswith("0") else 10
    digits = ("0" if m.group(2) and b != 16 else "") + ("x" if m.group(2) and b != 16 else "") + m.group(3)
    v, any_ = 0, False
    for ch in digits.lower():
        d = "0123456789abcdefghijklmnopqrstuvwxyz".index(ch)
        if d >= b:
            break
        v, any_ = v * b + d, True
    return num(-v if m.group(1) == "-" else v) if any_ else None


def wordat(t):
    """next blank-separated word and the rest; None at the end"""
    ps = chars(t)
    i = 0
    while i < len(ps) and isinstance(ps[i][0], str) and ps[i][0] in " \t\n":
        i += 1
    if i == len(ps):
        return None, lit("")
    j = i
    while j < len(ps) and not (isinstance(ps[j][0], str) and ps[j][0] in " \t\n"):
        j += 1
    return text(*[x[0] for x in ps[i:j]]), text(*[x[0] for x in ps[j:]])


def render(t):
    """for messages"""
    return "".join(p.a[0] if p.op == "str" else "<%s>" % (p.a[0],) for p in pieces(t))


# ---------------------------------------------------------------- regexes --
def _may_match(t, pattern):
    """some choice of the unknown characters matches"""
    import regexlang
    A = regexlang.Automaton(pattern)
    now = {A.closure({A.start})}
    for p in pieces(t):
        if p.op == "str":
            for ch in p.a[0]:
                now = {A.step(s, ch) for s in now}
            continue
        todo, seen = list(now), set()
        while todo:
            s = todo.pop()
            for x in {A.step(s, ch) for ch in ALPHABET[p.op]}:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        now = seen
    return any(A.accepts(s) for s in now)


def regex_match(t, pattern):
    """full match -> list of groups as texts (None = unmatched), or None"""
    if any(p.op == "word" for p in pieces(t)):
        if not _may_match(t, pattern):
            return None
        raise AnalysisError("pattern matching meets a word")
    res = []
    for k in (1, 3):
        s, marks = "", []
        for i, p in enumerate(pieces(t)):
            if p.op == "str":
                marks += [(i, j) for j in range(len(p.a[0]))]
                s += p.a[0]
            elif p.op in ("dig", "dec"):
                marks += [(i, None)] * k
                s += "7" * k
            else:
                raise AnalysisError("pattern matching meets a word")
        marks.append((len(pieces(t)), 0))
        m = re.fullmatch(pattern, s)
        if m is None:
            res.append(None)
            continue
        gs = []
        for g in range(m.re.groups + 1):
            if m.start(g) < 0:
                gs.append(None)
                continue
            out, seen = [], None
            for j in range(m.start(g), m.end(g)):
                i, o = marks[j]
                if o is None:
                    if i != seen:
                        out.append(pieces(t)[i])
                        if j > 0 and marks[j - 1] == (i, None) and j - 1 < m.start(g):
                            raise AnalysisError("pattern splits a numeral")
                    seen = i
                else:
                    out.append(lit(pieces(t)[i].a[0][o]))
            if m.end(g) < len(s) and m.end(g) > m.start(g) and marks[m.end(g)][1] is None and marks[m.end(g)] == marks[m.end(g) - 1]:
                raise AnalysisError("pattern splits a numeral")
            gs.append(text(*out))
        res.append(gs)
    if res[0] is None and res[1] is None:
        return None
    if res[0] is None or res[1] is None or res[0] != res[1]:
        raise AnalysisError("pattern depends on a numeral")
    return res[0]


def regex_replace(t, pattern, by):
    res = []
    for k in (1, 3):
        s, marks = "", []
        for i, p in enumerate(pieces(t)):
            if p.op == "str":
                marks += [(i, j) for j in range(len(p.a[0]))]
                s += p.a[0]
            else:
                marks += [(i, None)] * k
                s += "7" * k
        out, pos = [], 0

        def take(a, b):
            seen = None
            for j in range(a, b):
                i, o = marks[j]
                if o is None:
                    if i != seen:
                        out.append(pieces(t)[i])
                    seen = i
                else:
                    out.append(lit(pieces(t)[i].a[0][o]))
        for m in re.finditer(pattern, s):
            for e in (m.start(), m.end()):
                if 0 < e < len(s) and marks[e][1] is None and marks[e] == marks[e - 1]:
                    raise AnalysisError("pattern splits a numeral")
            take(pos, m.start())
            out.append(by)
            pos = m.end()
        take(pos, len(s))
        res.append(text(*out))
    if res[0] is not res[1]:
        raise AnalysisError("pattern depends on a numeral")
    return res[0]


# ----------------------------------------------------------------- engine --
S = "std::basic_string<char>::"
T_REST, T_ALL, T_EOF, T_FAIL = "@rest", "@all", "@eof", "@fail"


def throws(E, st, n, what):
    v = mk("obj", what)
    E.emit("throw", st, n, val=v)
    E.frames[-1].throws.append(Exit("throw", st.clone(), v, n.get("l", 0), n))
    st.dead = True
    return mk("void")


def as_text(E, v, st):
    """text of a std::string / char pointer / char value"""
    if v.op == "pre":
        return v
    if known(v):
        return text(*pieces(v))
    if is_num(v):
        return lit(chr(int(v.a[0])))
    if v.op in ("addr", "ptr", "arr"):
        t = st.env.get(fld(el(v), "@chars"))
        if t is None:
            lv = el(v)
            # array decays to the address of its first element
            t = st.env.get(fld(lv.a[0] if lv.op == "el" and isinstance(lv.a[0], Term) and lv.a[0].op not in ("sym",) else lv, "@chars"))
        if t is not None:
            return t
    raise AnalysisError("text %s is not known" % (v,))


class Stream:
    """a character stream kept in the abstract state"""
    def __init__(self, E, lv, st):
        self.E, self.lv, self.st = E, lv, st

    def get(self, f, d):
        return self.st.env.get(fld(self.lv, f), d)

    def put(self, f, v):
        self.st.env[fld(self.lv, f)] = v

    @property
    def known(self):
        if fld(self.lv, T_REST) in self.st.env:
            return True
        v = self.st.env.get(self.lv)
        if v is not None and v.op == "obj" and "stringstream" in v.a[0]:
            t = lit("")
            for x in v.a[2:]:
                if known(x):
                    t = text(*pieces(x))
                elif not is_num(x) and x.op not in ("gvar",):
                    return False
            self.open(t)
            return True
        return False

    def open(self, t):
        self.put(T_ALL, t)
        self.put(T_REST, t)
        self.put(T_EOF, F)
        self.put(T_FAIL, F)

    def line(self, delim="\n"):
        """what getline stores (None: nothing extracted)"""
        if self.get(T_EOF, F) is T or self.get(T_FAIL, F) is T:
            self.put(T_FAIL, T)
            return None
        t = self.get(T_REST, lit(""))
        p = find(t, lit(delim))
        if p is NPOS:
            self.put(T_REST, lit(""))
            self.put(T_EOF, T)
            if not pieces(t):
                self.put(T_FAIL, T)
            return t
        self.put(T_REST, cut(t, add(p, ONE)))
        return cut(t, ZERO, p)


def install(E):
    """make the engine fold operations on such texts"""
    H = E.hooks

    def arg(E, x, st):
        return E.ev(x, st) if isinstance(x, dict) else x

    def me(E, obj, st):
        return E.load(el(obj), st)

    def m_length(E, fn, obj, a, n, st):
        s = me(E, obj, st)
        return length(s) if known(s) else NotImplemented

    def m_empty(E, fn, obj, a, n, st):
        s = me(E, obj, st)
        return (F if pieces(s) else T) if known(s) else NotImplemented

    def m_compare(E, fn, obj, a, n, st):
        s = me(E, obj, st)
        if not known(s):
            return NotImplemented
        v = [arg(E, x, st) for x in a]
        if len(v) >= 3:
            if len(v) == 3 and is_num(v[1]):
                s = cut(s, v[0])
                if s is None:
                    return throws(E, st, n, "std::out_of_range")
                return num(compare_start(s, int(v[1].a[0]), as_text(E, v[2], st)))
            s = cut(s, v[0], v[1])
            if s is None:
                return throws(E, st, n, "std::out_of_range")
            v = v[2:]
        t = as_text(E, v[0], st)
        if len(v) == 2:
            t = cut(t, ZERO, v[1])
        elif len(v) == 3:
            t = cut(t, v[1], v[2])
        return num(compare(s, t))

    def finder(kind):
        def h(E, fn, obj, a, n, st):
            s = me(E, obj, st)
            if not known(s):
                return NotImplemented
            v = [arg(E, x, st) for x in a]
            w = as_text(E, v[0], st)
            pos = v[1] if len(v) > 1 else ZERO
            if kind == "find":
                return find(s, w, pos)
            if kind == "rfind":
                if len(v) > 1 and v[1] is not NPOS:
                    raise AnalysisError("rfind with a limit")
                return find(s, w, last=True)
            if w.op != "str":
                raise AnalysisError("search for characters of a numeral")
            return find_any(s, w.a[0], pos if "first" in kind else ZERO, negate="not" in kind, last="last" in kind)
        return h

    def m_substr(E, fn, obj, a, n, st):
        s = me(E, obj, st)
        if not known(s):
            return NotImplemented
        v = [num(x.a[0] % 2 ** 64) if is_num(x) and x.a[0] >= 2 ** 64 else x for x in (arg(E, x, st) for x in a)]   # npos + 1 is 0
        try:
            r = cut(s, v[0] if v else ZERO, v[1] if len(v) > 1 else None)
        except AnalysisError:
            if len(v) != 2 or v[0] is not ZERO or not is_num(v[1]):
                raise
            r = mk("pre", s, v[1])   # a beginning that ends inside a numeral: good for comparison only
        return throws(E, st, n, "std::out_of_range") if r is None else r

    def m_replace(E, fn, obj, a, n, st):
        s = me(E, obj, st)
        if not known(s):
            return NotImplemented
        v = [arg(E, x, st) for x in a]
        by = as_text(E, v[2], st)
        h = cut(s, ZERO, v[0]) if locate(s, v[0]) is not None else None
        if h is None:
            return throws(E, st, n, "std::out_of_range")
        t = cut(s, add(v[0], v[1]))
        E.store(el(obj), text(h, by, t if t is not None else lit("")), st, n)
        return mk("addr", el(obj))

    def m_erase(E, fn, obj, a, n, st):
        s = me(E, obj, st)
        if not known(s) or (a and "iterator" in (fn.get("pt") or [""])[0]):
            return NotImplemented
        v = [arg(E, x, st) for x in a]
        h = cut(s, ZERO, v[0] if v else ZERO)
        t = cut(s, add(v[0], v[1])) if len(v) > 1 and v[1] is not NPOS else None
        E.store(el(obj), text(h, t if t is not None else lit("")), st, n)
        return mk("addr", el(obj))

    def m_append(E, fn, obj, a, n, st):
        s = me(E, obj, st)
        if not known(s) or len(a) != 1:
            return NotImplemented
        E.store(el(obj), text(s, as_text(E, arg(E, a[0], st), st)), st, n)
        return mk("addr", el(obj))

    def m_index(E, fn, obj, a, n, st):
        s = me(E, obj, st)
        if not known(s):
            return NotImplemented
        i = arg(E, a[0], st) if a else (ZERO if fn["name"] == "front" else sub(length(s), ONE))
        p = locate(s, i)
        if p is None:
            return throws(E, st, n, "std::out_of_range")
        ps = pieces(s)
        if p[0] == len(ps):
            return ZERO
        q = ps[p[0]]
        if q.op != "str":
            raise AnalysisError("character of a numeral")
        if p[1] == len(q.a[0]):
            if p[0] + 1 < len(ps):
                raise AnalysisError("character of a numeral")
            return ZERO
        r = num(ord(q.a[0][p[1]]))
        lv = mk("var", "tmp@%d" % E.nid())
        st.env[lv] = r
        return addr(lv) if fn["ret"].rstrip().endswith("&") else r

    def m_assign(E, fn, obj, a, n, st):
        if len(a) != 1:
            return NotImplemented
        v = arg(E, a[0], st)
        if not known(v) and v.op in ("addr", "ptr"):
            try:
                v = as_text(E, v, st)
            except AnalysisError:
                return NotImplemented
        elif v.op == "cstr":
            v = v.a[0]
        E.store(el(obj), v, st, n)
        return mk("addr", el(obj))

    def m_cstr(E, fn, obj, a, n, st):
        return mk("cstr", me(E, obj, st))

    for k, h in (("length", m_length), ("size", m_length), ("empty", m_empty), ("compare", m_compare), ("substr", m_substr),
                 ("replace", m_replace), ("erase", m_erase), ("append", m_append), ("operator+=", m_append), ("push_back", m_append),
                 ("operator[]", m_index), ("at", m_index), ("front", m_index), ("back", m_index), ("operator=", m_assign), ("assign", m_assign),
                 ("c_str", m_cstr), ("data", m_cstr)):
        H[S + k] = h
    for k in ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of"):
        H[S + k] = finder(k)

    def plus(E, fn, obj, a, n, st):
        if len(a) != 2 or not any(is_string(x.get("t", "")) for x in a):
            return NotImplemented
        v = [arg(E, x, st) for x in a]
        return text(*[as_text(E, x, st) for x in v])
    H["std::operator+"] = plus

    def eq(want):
        def h(E, fn, obj, a, n, st):
            if obj is not None or len(a) != 2 or not any(is_string(x.get("t", "")) for x in a):
                return NotImplemented
            v = [as_text(E, arg(E, x, st), st) for x in a]
            return T if same(*v) == want else F
        return h
    H["std::operator=="] = eq(True)
    H["std::operator!="] = eq(False)

    def conv(real, cut_=True):
        def h(E, fn, obj, a, n, st):
            v = arg(E, a[0], st)
            try:
                t = as_text(E, v, st)
            except AnalysisError:
                return NotImplemented
            base = arg(E, a[2], st) if not real and len(a) > 2 else num(10)
            if base is not num(10):
                x = based(t, base)
            else:
                x, rest = number(t, real)
            if x is None:
                return ZERO if fn["name"] in ("atoi", "atof", "atol", "strtof", "strtod", "strtol", "strtoul") else throws(E, st, n, "std::invalid_argument")
            return x
        return h
    for k in ("atoi", "atol", "strtol", "strtoul", "std::stoi", "std::stoul", "std::stol", "std::atoi", "std::atol", "std::strtol", "std::strtoul"):
        H[k] = conv(False)
    for k in ("atof", "strtof", "strtod", "std::stof", "std::stod", "std::atof", "std::strtof", "std::strtod"):
        H[k] = conv(True)

    def to_string(E, fn, obj, a, n, st):
        v = arg(E, a[0], st)
        return lit(str(int(v.a[0]))) if is_num(v) and is_int(a[0].get("t", "")) else (dig(v) if is_int(a[0].get("t", "")) else dec(v))
    H["std::to_string"] = to_string

    def sprintf(E, fn, obj, a, n, st):
        k = 2 if fn["name"] == "snprintf" else 1
        f = arg(E, a[k], st)
        if f.op != "str":
            return NotImplemented
        parts, i = [], k + 1
        for x in re.split(r"(%[a-z]+)", f.a[0]):
            if x in ("%d", "%u", "%i", "%lu", "%ld"):
                v = arg(E, a[i], st)
                parts.append(lit(str(int(v.a[0]))) if is_num(v) else dig(v))
                i += 1
            elif x == "%s":
                parts.append(as_text(E, arg(E, a[i], st), st))
                i += 1
            elif x.startswith("%"):
                return NotImplemented
            else:
                parts.append(lit(x))
        p = arg(E, a[0], st)
        st.env[fld(el(p), "@chars")] = text(*parts)
        return length(text(*parts))
    for k in ("sprintf", "snprintf", "std::sprintf", "std::snprintf"):
        H[k] = sprintf

    # -- streams -----------------------------------------------------------
    I, B, L = "std::basic_istream<char>::", "std::basic_ios<char>::", "std::"

    def stream(E, obj, st):
        return Stream(E, el(obj), st)

    def getline(E, fn, obj, a, n, st):
        p = E.lv_or_temp(a[0], st)
        f = Stream(E, p, st)
        if not f.known:
            return NotImplemented
        d = "\n"
        if len(a) > 2:
            v = arg(E, a[2], st)
            d = chr(int(v.a[0])) if is_num(v) else as_text(E, v, st).a[0]
        t = f.line(d)
        E.store(E.lv(a[1], st), t if t is not None else lit(""), st, n)
        return addr(p)
    H["std::getline"] = getline

    def state(which):
        def h(E, fn, obj, a, n, st):
            f = stream(E, obj, st)
            if not f.known:
                return NotImplemented
            e, b = f.get(T_EOF, F), f.get(T_FAIL, F)
            return {"eof": e, "fail": b, "bad": F, "good": and_(not_(e), not_(b)), "operator bool": not_(b), "operator!": b}[which]
        return h
    for k in ("eof", "fail", "bad", "good", "operator bool", "operator!"):
        H[B + k] = state(k)

    def clear(E, fn, obj, a, n, st):
        f = stream(E, obj, st)
        if not f.known:
            return NotImplemented
        f.put(T_EOF, F)
        f.put(T_FAIL, F)
        return mk("void")
    H[B + "clear"] = clear

    def seekg(E, fn, obj, a, n, st):
        f = stream(E, obj, st)
        if not f.known:
            return NotImplemented
        if f.get(T_FAIL, F) is T:
            return obj
        v = [arg(E, x, st) for x in a]
        if not is_num(v[0]) or (len(v) > 1 and not is_num(v[1]) and "beg" not in str(v[1])) or v[0].a[0] != 0:
            raise AnalysisError("seek to %s" % (v,))
        if len(v) > 1 and is_num(v[1]) and v[1].a[0] != 0:
            raise AnalysisError("seek from %s" % (v,))
        f.put(T_EOF, F)
        f.put(T_REST, f.get(T_ALL, lit("")))
        return obj
    H[I + "seekg"] = seekg

    def ss_str(E, fn, obj, a, n, st):
        f = stream(E, obj, st)
        if a:
            f.open(as_text(E, arg(E, a[0], st), st))
            return mk("void")
        return f.get(T_ALL, lit(""))
    for c in ("std::basic_stringstream<char>::", "std::basic_ostringstream<char>::", "std::basic_istringstream<char>::"):
        H[c + "str"] = ss_str

    def shift(E, op, s, x, n, st):
        """stream operators"""
        f = Stream(E, el(s), st)
        if op == "<<":
            if not f.known:
                return NotImplemented
            v = E.arg(x, st)
            t = x.get("t", "")
            if known(v):
                w = text(*pieces(v))
            elif is_num(v) and is_int(t):
                w = lit(chr(int(v.a[0]))) if base_type(t) == "char" else lit(str(int(v.a[0])))
            elif is_int(t) and base_type(t) != "char":
                w = dig(v)
            elif is_float(t):
                w = dec(v)
            else:
                return NotImplemented
            f.put(T_ALL, text(f.get(T_ALL, lit("")), w))
            f.put(T_REST, text(f.get(T_REST, lit("")), w))
            return s
        if not f.known:
            return NotImplemented
        lv = E.lv(x, st)
        t = x.get("t", "")
        if f.get(T_FAIL, F) is T or f.get(T_EOF, F) is T:
            f.put(T_FAIL, T)
            return s
        if is_string(t):
            w, rest = wordat(f.get(T_REST, lit("")))
            if w is None:
                f.put(T_FAIL, T)
                f.put(T_EOF, T)
                return s
            v = w
        elif is_float(t) or (is_int(t) and base_type(t) != "char"):
            v, rest = number(f.get(T_REST, lit("")), is_float(t))
            if v is None:
                f.put(T_FAIL, T)
                E.store(lv, ZERO, st, n)
                return s
        else:
            return NotImplemented
        f.put(T_REST, rest)
        if not pieces(rest):
            f.put(T_EOF, T)
        E.store(lv, v, st, n)
        return s
    E.stream_hook = shift
    E.cmp_fold = cmp_fold

    # -- regular expressions ----------------------------------------------
    def pattern(E, x, st):
        v = E.arg(x, st)
        while v.op == "val":
            v = E.load(v.a[0], st)
        for y in v.a:
            if isinstance(y, Term) and y.op in ("str", "txt", "cstr"):
                p = text(*pieces(y))
                if p.op == "str":
                    return p.a[0]
        raise AnalysisError("pattern %s is not known" % (v,))

    def rx_match(E, fn, obj, a, n, st):
        s = as_text(E, E.arg(a[0], st), st)
        if len(a) >= 3 and "match_results" in a[1].get("t", ""):
            g = regex_match(s, pattern(E, a[2], st))
            lv = E.lv(a[1], st)
            st.env[fld(lv, "@n")] = num(len(g) if g is not None else 0)
            for i, x in enumerate(g or []):
                st.env[fld(lv, "@g%d" % i)] = x if x is not None else lit("")
            return T if g is not None else F
        return T if regex_match(s, pattern(E, a[1], st)) is not None else F
    H["std::regex_match"] = rx_match
    M = "std::match_results<__gnu_cxx::__normal_iterator<const char *, std::basic_string<char>>>::"
    U = "std::sub_match<__gnu_cxx::__normal_iterator<const char *, std::basic_string<char>>>::"

    def groups(E, obj, st):
        n = st.env.get(fld(el(obj), "@n"))
        if n is None:
            raise AnalysisError("match is not known")
        return int(n.a[0])

    def rx_group(E, fn, obj, a, n, st):
        i = arg(E, a[0], st) if a else ZERO
        if not is_num(i):
            raise AnalysisError("group of a match is not known")
        lv = fld(el(obj), "@g%d" % int(i.a[0]))
        if int(i.a[0]) >= groups(E, obj, st):
            st.env[lv] = lit("")
        return st.env[lv] if fn["name"] == "str" else addr(lv)
    for k in ("operator[]", "str"):
        H[M + k] = rx_group
    H[M + "size"] = lambda E, fn, obj, a, n, st: num(groups(E, obj, st))
    H[M + "empty"] = lambda E, fn, obj, a, n, st: F if groups(E, obj, st) else T
    for k in ("operator basic_string", "str"):
        H[U + k] = lambda E, fn, obj, a, n, st: st.env[el(obj)]
    H[U + "length"] = lambda E, fn, obj, a, n, st: length(st.env[el(obj)])

    def rx_replace(E, fn, obj, a, n, st):
        s = as_text(E, E.arg(a[0], st), st)
        by = as_text(E, E.arg(a[2], st), st)
        return regex_replace(s, pattern(E, a[1], st), by)
    H["std::regex_replace"] = rx_replace

    # -- random generators: seed() equals construction with that seed -------
    if not hasattr(E.prog, "reseeders"):
        E.prog.reseeders = {g["q"] for f in E.prog.fns.values() for g in called(f.get("body")) if "mersenne_twister_engine" in g["q"] and g["name"] == "seed"}
    for q in E.prog.reseeders:
        def reseed(E, fn, obj, a, n, st):
            E.store(el(obj), mk("obj", fn["q"], mk("u", E.nid()), arg(E, a[0], st)) if a else mk("obj", fn["q"], mk("u", E.nid())), st, n)
            return mk("void")
        H[q] = reseed
    return E


def called(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if isinstance(x.get("fn"), dict):
                yield x["fn"]
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def prepare(s):
    """make a session fold texts"""
    s.E.concrete = True
    install(s.E)
    s.st.env[mk("gvar", S + "npos")] = NPOS


def flatten(s, p):
    """{path: value} of everything stored in the object p points to"""
    root = el(p)
    out = {}
    for lv, v in s.st.env.items():
        path, x = [], lv
        while x is not root and x.op in ("fld", "el") and x.a:
            if x.op == "fld":
                path.append(x.a[1])
                x = x.a[0]
            else:
                b, o = ptr_parts(x.a[0]) if x.a[0].op in ("ptr", "vdata", "addr") else (x.a[0], ZERO)
                if b.op == "vdata":
                    path.append("[%s]" % (o if len(x.a) < 2 else x.a[1],))
                    x = b.a[0]
                else:
                    break
        if x is root:
            out[".".join(reversed([str(q) for q in path]))] = v
    return out


UNSETTLED = ("ite", "sel", "call", "unk", "u", "m?", "undef", "gt0")


def settled(t):
    """whether a value is a plain expression over the inputs (nothing left undecided in it)"""
    if t.op == "obj":
        return all(settled(x) for x in t.a[2:] if isinstance(x, Term))
    return not any(x.op in UNSETTLED for x in walk(t))


def anonymous(t):
    """the term with newly allocated objects told apart by their type only"""
    m = {a: mk("alloc", 0, *a.a[1:]) for a in walk(t) if a.op == "alloc"} if isinstance(t, Term) else {}
    return subst(t, m) if m else t


def objects_differ(s, p, s2, q, ignore=()):
    """first member in which two objects differ, or None"""
    a, b = flatten(s, p), flatten(s2, q)
    for k in sorted(set(a) | set(b)):
        if any(k == i or k.startswith(i + ".") for i in ignore) or "@" in k:
            continue
        x, y = a.get(k), b.get(k)
        if x is y or anonymous(x) is anonymous(y):
            continue
        if x is None or y is None:
            x = x if x is not None else y
            if x.op in ("undef", "unk", "undefobj"):
                continue
            return k, a.get(k), b.get(k)
        if x.op == y.op == "lambda" and x.a[0] == y.a[0] or x.op == y.op == "val":
            continue
        if x.op == y.op and x.op in ("alloc", "undef", "unk", "u", "obj", "undefobj"):
            if x.op == "obj" and tuple(z for z in x.a[2:]) != tuple(z for z in y.a[2:]):
                return k, x, y
            continue
        return k, x, y
    return None


def open_stream(s, name, content):
    """a std::istream with the given content; -> lvalue"""
    lv = mk("gvar", name)
    Stream(s.E, lv, s.st).open(content)
    return lv
