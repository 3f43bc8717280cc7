"""Comparison of the languages of two (extended) regular expressions, by derivatives of their automata."""
from program import AnalysisError

ALPHABET = "".join(chr(c) for c in range(32, 127) if chr(c) != "\\") + "\n"


class Parser:
    """pattern -> NFA: states are numbers, edges {state: [(set or None, state)]}"""
    def __init__(self, p):
        self.p, self.i, self.n, self.edges = p.replace("\\\\", "\\") if False else p, 0, 0, {}

    def state(self):
        self.n += 1
        self.edges[self.n] = []
        return self.n

    def peek(self):
        return self.p[self.i] if self.i < len(self.p) else None

    def alt(self):
        a = self.seq()
        while self.peek() == "|":
            self.i += 1
            b = self.seq()
            s, e = self.state(), self.state()
            self.edges[s] += [(None, a[0]), (None, b[0])]
            self.edges[a[1]].append((None, e))
            self.edges[b[1]].append((None, e))
            a = (s, e)
        return a

    def seq(self):
        s = self.state()
        cur = (s, s)
        while self.peek() is not None and self.peek() not in "|)":
            x = self.rep()
            self.edges[cur[1]].append((None, x[0]))
            cur = (cur[0], x[1])
        return cur

    def rep(self):
        at = self.i
        a = self.atom()
        while self.peek() is not None and self.peek() in "*+?{":
            c = self.peek()
            if c == "{":
                raise AnalysisError("counted repetition in a pattern")
            self.i += 1
            s, e = self.state(), self.state()
            self.edges[s].append((None, a[0]))
            self.edges[a[1]].append((None, e))
            if c in "*?":
                self.edges[s].append((None, e))
            if c in "*+":
                self.edges[a[1]].append((None, a[0]))
            a = (s, e)
        return a

    def one(self, chars):
        s, e = self.state(), self.state()
        self.edges[s].append((frozenset(chars), e))
        return s, e

    def atom(self):
        c = self.p[self.i]
        self.i += 1
        if c == "(":
            if self.p[self.i:self.i + 2] == "?:":
                self.i += 2
            a = self.alt()
            if self.peek() != ")":
                raise AnalysisError("unbalanced pattern")
            self.i += 1
            return a
        if c == "[":
            neg = self.peek() == "^"
            if neg:
                self.i += 1
            out, first = set(), True
            while self.peek() != "]" or first:
                first = False
                x = self.p[self.i]
                if x == "[" and self.p[self.i + 1:self.i + 2] in (":", ".", "="):
                    j = self.p.index(":]", self.i)
                    name = self.p[self.i + 2:j]
                    cls = {"alpha": str.isalpha, "digit": str.isdigit, "alnum": str.isalnum, "lower": str.islower, "upper": str.isupper, "space": str.isspace}.get(name)
                    if cls is None:
                        raise AnalysisError("character class %s" % name)
                    out |= {k for k in ALPHABET if cls(k)}
                    self.i = j + 2
                    continue
                self.i += 1
                if self.peek() == "-" and self.p[self.i + 1:self.i + 2] != "]":
                    y = self.p[self.i + 1]
                    self.i += 2
                    out |= {k for k in ALPHABET if x <= k <= y}
                else:
                    out.add(x)
                if self.peek() is None:
                    raise AnalysisError("unbalanced pattern")
            self.i += 1
            return self.one(set(ALPHABET) - out if neg else out)
        if c == ".":
            return self.one(set(ALPHABET) - {"\n"})
        if c in "^$":
            if (c == "^" and self.i != 1) or (c == "$" and self.i != len(self.p)):
                raise AnalysisError("anchor inside a pattern")
            s = self.state()
            return s, s
        if c == "\\":
            x = self.p[self.i]
            self.i += 1
            if x == "d":
                return self.one("0123456789")
            if x == "s":
                return self.one(" \n")
            if x.isalnum():
                raise AnalysisError("escape \\%s in a pattern" % x)
            return self.one(x)
        return self.one(c)


class Automaton:
    def __init__(self, p):
        q = Parser(p)
        self.start, self.end = q.alt()
        if q.i != len(p):
            raise AnalysisError("unbalanced pattern")
        self.edges = q.edges

    def closure(self, ss):
        out, st = set(ss), list(ss)
        while st:
            for c, t in self.edges[st.pop()]:
                if c is None and t not in out:
                    out.add(t)
                    st.append(t)
        return frozenset(out)

    def step(self, ss, ch):
        return self.closure({t for s in ss for c, t in self.edges[s] if c is not None and ch in c})

    def accepts(self, ss):
        return self.end in ss


def difference(p, q):
    """None when both match the same texts, else (p matches, shortest text)"""
    A, B = Automaton(p), Automaton(q)
    start = (A.closure({A.start}), B.closure({B.start}))
    seen, todo = {start}, [(start, "")]
    while todo:
        nxt = []
        for (a, b), w in todo:
            if A.accepts(a) != B.accepts(b):
                return A.accepts(a), w
            for ch in ALPHABET:
                t = (A.step(a, ch), B.step(b, ch))
                if t not in seen:
                    seen.add(t)
                    nxt.append((t, w + ch))
        todo = nxt
    return None
