"""Forward pass of every layer type = its mathematical definition."""
import layercases as L
from program import program

MIN = 10
RULE = "forward effect summary equals the reference definition"


def where(case, m):
    f = L.find_method(program("ref"), case.cls, m)
    return "%s:%d" % (f["file"], f["line"])


def run(R):
    R.configs.add("ref")
    R.assumptions += ["real arithmetic: rounding, overflow and NaN are outside the summaries",
                      "layer objects are configured, given their outputs and connected successfully before use"]
    for case in L.cases():
        if case.fwd is None:
            continue
        def one():
            S = L.setup(case)
            v = L.forward(S, R.seed)
            R.uses(*S.sess.fns)
            R.uses(*sorted(S.sess.E.inlined))
            return v
        R.guard("forward of " + case.name, where(case, "FeedForward"), RULE, one)
