"""Backward pass of every layer type = the adjoint (chain rule) of its definition."""
import layercases as L
from rules.p07 import where

MIN = 9
RULE = "backward effect summary equals the chain-rule definition"


def run(R):
    R.configs.add("ref")
    R.assumptions += ["real arithmetic: rounding, overflow and NaN are outside the summaries",
                      "BackPropagate follows FeedForward on the same, successfully connected layer"]
    for case in L.cases():
        if case.bwd is None:
            continue
        def one():
            S = L.setup(case)
            L.forward(S, R.seed) if case.fwd else L.forward(S)
            v = L.backward(S, R.seed)
            R.uses(*S.sess.fns)
            R.uses(*sorted(S.sess.E.inlined))
            return v
        R.guard("backward of " + case.name, where(case, "BackPropagate"), RULE, one)
