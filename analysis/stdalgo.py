"""Standard algorithms over arrays, as the loops they stand for.

Each call is rewritten into a small syntax tree (a for loop over pointer arguments) and evaluated
by the engine like a loop of the repository."""
from terms import *

PTR = ("copy", "copy_n", "fill", "fill_n", "transform", "accumulate", "inner_product", "for_each", "generate",
       "max_element", "min_element", "count", "count_if", "iota", "all_of", "any_of", "none_of", "replace", "swap_ranges", "copy_backward", "equal")
NAMES = {"std::" + x: x for x in PTR}


def pointer_type(t):
    """type of the pointer an iterator stands for, or None"""
    t = t.replace("const __gnu_cxx", "__gnu_cxx").strip()
    while t.endswith("&") or t.endswith(" const"):
        t = t[:-1].strip() if t.endswith("&") else t[:-6].strip()
    for c in ("*const", "* const"):
        if t.endswith(c):
            t = t[:-len(c)] + "*"
    if "__normal_iterator<" in t:
        d, i = 0, t.index("__normal_iterator<") + len("__normal_iterator<")
        for j in range(i, len(t)):
            if t[j] in "<(":
                d += 1
            elif t[j] in ">)":
                d -= 1
            elif t[j] == "," and d == 0:
                return t[i:j].strip()
        return None
    if t.endswith("]"):
        return t.split("[")[0].strip() + " *"
    return t if t.endswith("*") else None


def run(E, q, args, n, st):
    name = NAMES.get(q)
    if name is None or not args:
        return NotImplemented
    p = pointer_type(args[0].get("t", ""))
    if p is None or E.is_class(p[:-1].replace("const ", "").strip()):
        return NotImplemented
    line = n.get("l", 0)
    fr = E.frames[-1]

    def local(t, v):
        i = "algo%d" % E.nid()
        lv = mk("var", "%s@%d" % (i, fr.no))
        fr.vars[i] = lv
        st.env[lv] = v
        return {"k": "ref", "dk": "local", "id": i, "name": i, "t": t, "l": line}

    def integer(v):
        return {"k": "int", "v": str(v), "t": "long", "l": line}

    def at(ptr, i):
        return {"k": "idx", "a": ptr, "b": i, "t": ptr["t"].rstrip()[:-1].replace("const ", "").strip(), "l": line}

    def asg(a, b, op=""):
        return {"k": "asg", "op": op, "a": a, "b": b, "t": a["t"], "l": line}

    def binary(op, a, b, t="bool"):
        return {"k": "bin", "op": op, "a": a, "b": b, "t": t, "l": line}

    def apply(f, *a):
        return {"k": "apply", "f": f, "a": list(a), "t": f["ret"], "l": line}

    def seq(*s):
        return {"k": "compound", "s": list(s), "l": line}

    def when(c, *s):
        return {"k": "if", "c": c, "th": seq(*s), "l": line}

    def loop(count, body):
        i = local("long", ZERO)
        b = body(i)
        f = {"k": "for", "c": binary("<", i, count), "n": {"k": "un", "op": "post++", "a": i, "t": "long", "l": line}, "b": b, "l": line}
        out = []
        E.stmt(f, st, out)
        if out:
            raise NotImplementedError
        return mk("void")

    def value(x):
        return E.ev(x, st)

    def pointer(k):
        t = pointer_type(args[k].get("t", ""))
        return None if t is None else local(t, value(args[k]))

    def function(k, ret):
        v = value(args[k])
        x = args[k]
        while x["k"] in ("cast", "construct") and (x.get("e") or (len(x.get("a", [])) == 1)):
            x = x.get("e") or x["a"][0]
        if v.op == "lambda":
            return {"v": v, "ret": ret}
        if v.op in ("fnref", "fnptr", "purefn"):
            return {"v": v, "ret": ret}
        t = args[k].get("t", "")
        for o, sign in (("plus", "+"), ("minus", "-"), ("multiplies", "*"), ("divides", "/")):
            if t.replace("const ", "").startswith("std::%s<" % o):
                return {"op": sign, "ret": ret, "v": None}
        return None

    def elem(ptr):
        return ptr["t"].rstrip()[:-1].replace("const ", "").strip()

    def back(ptr, count):
        """iterator count behind ptr"""
        return padd(E.ev(ptr, st), E.ev(count, st))

    def call(f, *a):
        return binary(f["op"], a[0], a[1], f["ret"]) if f.get("op") else apply(f, *a)

    first = pointer(0)
    if name in ("copy_n", "fill_n"):
        count = local("long", value(args[1]))
        rest = 2
    else:
        last = pointer(1)
        if last is None:
            return NotImplemented
        count = local("long", E.arith("-", E.ev(last, st), E.ev(first, st), p, p, "long"))
        rest = 2
    if name in ("copy", "copy_n"):
        to = pointer(rest)
        if to is None:
            return NotImplemented
        loop(count, lambda i: seq(asg(at(to, i), at(first, i))))
        return back(to, count)
    if name in ("fill", "fill_n"):
        v = args[rest]
        v = local(v.get("t", "").replace("const ", "").rstrip("& "), value(v))
        loop(count, lambda i: seq(asg(at(first, i), v)))
        return back(first, count) if name == "fill_n" else mk("void")
    if name == "iota":
        v = local(args[2].get("t", "").replace("const ", "").rstrip("& "), value(args[2]))
        loop(count, lambda i: seq(asg(at(first, i), binary("+", v, i, v["t"]))))
        return mk("void")
    if name == "transform":
        if len(args) == 4:
            to, f = pointer(2), function(3, None)
        else:
            second, to, f = pointer(2), pointer(3), function(4, None)
            if second is None:
                return NotImplemented
        if to is None or f is None:
            return NotImplemented
        f["ret"] = elem(to)
        loop(count, (lambda i: seq(asg(at(to, i), call(f, at(first, i))))) if len(args) == 4 else (lambda i: seq(asg(at(to, i), call(f, at(first, i), at(second, i))))))
        return back(to, count)
    if name in ("accumulate", "inner_product"):
        second = pointer(2) if name == "inner_product" else None
        k = 2 if name == "accumulate" else 3
        if len(args) > k + 2 or (name == "inner_product" and (len(args) > 4 or second is None)):
            return NotImplemented
        acc = local(args[k].get("t", "").replace("const ", "").rstrip("& "), value(args[k]))
        f = None
        if len(args) == k + 2:
            f = function(k + 1, acc["t"])
            if f is None:
                return NotImplemented
        if second is not None:
            loop(count, lambda i: seq(asg(acc, binary("*", at(first, i), at(second, i), acc["t"]), "+")))
        elif f is None:
            loop(count, lambda i: seq(asg(acc, at(first, i), "+")))
        else:
            loop(count, lambda i: seq(asg(acc, call(f, acc, at(first, i)))))
        return E.ev(acc, st)
    if name == "for_each":
        f = function(2, "void")
        if f is None or f.get("op"):
            return NotImplemented
        loop(count, lambda i: seq(apply(f, at(first, i))))
        return mk("void")
    if name == "generate":
        f = function(2, elem(first))
        if f is None or f.get("op"):
            return NotImplemented
        loop(count, lambda i: seq(asg(at(first, i), apply(f))))
        return mk("void")
    if name in ("max_element", "min_element"):
        if len(args) > 2:
            return NotImplemented
        best = local("long", ZERO)
        top = local(elem(first), E.ev(at(first, integer(0)), st))
        # the comparison of the first element with itself changes nothing
        loop(count, lambda i: seq(when(binary(">" if name == "max_element" else "<", at(first, i), top), asg(top, at(first, i)), asg(best, i))))
        return back(first, best)
    if name in ("count", "count_if"):
        c = local("long", ZERO)
        one = integer(1)
        if name == "count":
            v = local(args[2].get("t", "").replace("const ", "").rstrip("& "), value(args[2]))
            loop(count, lambda i: seq(when(binary("==", at(first, i), v), asg(c, one, "+"))))
        else:
            f = function(2, "bool")
            if f is None or f.get("op"):
                return NotImplemented
            loop(count, lambda i: seq(when(apply(f, at(first, i)), asg(c, one, "+"))))
        return E.ev(c, st)
    if name in ("all_of", "any_of", "none_of"):
        f = function(2, "bool")
        if f is None or f.get("op"):
            return NotImplemented
        c = local("long", ZERO)
        one = integer(1)
        hit = (lambda i: apply(f, at(first, i))) if name != "all_of" else (lambda i: {"k": "un", "op": "!", "a": apply(f, at(first, i)), "t": "bool", "l": line})
        loop(count, lambda i: seq(when(hit(i), asg(c, one, "+"))))
        r = E.ev(c, st)
        some = ge0(sub(r, ONE))
        return some if name == "any_of" else not_(some)
    if name == "equal":
        to = pointer(2)
        if to is None or len(args) > 3:
            return NotImplemented
        c = local("long", ZERO)
        loop(count, lambda i: seq(when(binary("!=", at(first, i), at(to, i)), asg(c, integer(1), "+"))))
        return not_(ge0(sub(E.ev(c, st), ONE)))
    if name == "replace":
        a, b = (local(args[k].get("t", "").replace("const ", "").rstrip("& "), value(args[k])) for k in (2, 3))
        loop(count, lambda i: seq(when(binary("==", at(first, i), a), asg(at(first, i), b))))
        return mk("void")
    return NotImplemented


def element_type(t):
    """T of std::vector<T, ...>, or None"""
    t = t.replace("const ", "").strip().rstrip("&* ")
    if not t.startswith("std::vector<"):
        return None
    d, i = 0, len("std::vector<")
    for j in range(i, len(t)):
        if t[j] in "<(":
            d += 1
        elif t[j] in ">)":
            if d == 0:
                return t[i:j].strip()
            d -= 1
        elif t[j] == "," and d == 0:
            return t[i:j].strip()
    return None


def fill(E, to, count, value, t, n, st, source=None):
    """to[0..count) = value, or source[0..count)"""
    line = n.get("l", 0)
    fr = E.frames[-1]

    def local(ty, v):
        i = "algo%d" % E.nid()
        lv = mk("var", "%s@%d" % (i, fr.no))
        fr.vars[i] = lv
        st.env[lv] = v
        return {"k": "ref", "dk": "local", "id": i, "name": i, "t": ty, "l": line}

    def at(ptr, i):
        return {"k": "idx", "a": ptr, "b": i, "t": t, "l": line}
    to, count, i = local(t + " *", to), local("long", count), local("long", ZERO)
    src = at(local(t + " *", source), i) if source is not None else local(t, value)
    f = {"k": "for", "c": {"k": "bin", "op": "<", "a": i, "b": count, "t": "bool", "l": line},
         "n": {"k": "un", "op": "post++", "a": i, "t": "long", "l": line},
         "b": {"k": "compound", "s": [{"k": "asg", "op": "", "a": at(to, i), "b": src, "t": t, "l": line}], "l": line}, "l": line}
    out = []
    E.stmt(f, st, out)
    if out:
        raise NotImplementedError
