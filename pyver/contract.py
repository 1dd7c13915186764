"""Contracts of the real functions.

A clause is a triple (label, tags, text): `text` is a Python expression over
the parameters and `result`, evaluated with the specification functions of
spec.py; `tags` is "*" or a set of property names.  The check of property P
proves the clauses tagged P (or "*") of every function under contract for P,
and assumes, at a call, only clauses with the same tags: the clauses of one
property are a closed system.
"""


class Contract:
    def __init__(self, key, params, ret, requires=(), ensures=(), raises=None, invs=(), variants=(),
                 functional=None, cases=None, inline=(), total=False, budget=None, measure=None, light=None, bounded=(), flow=None):
        self.flow = flow                    # (tags, parameter, functions through which alone the parameter may matter)
        self.bounded = set(bounded)         # properties for which the clauses are only tested, not proved
        self.light = light
        self.key, self.params, self.ret = key, params, ret
        self.requires, self.ensures = [norm(x) for x in requires], [norm(x) for x in ensures]
        self.raises = {k: [norm(x) for x in v] for k, v in (raises or {}).items()}
        self.invs = [(t, x) for t, x in invs]
        self.variants = [(t, x) for t, x in variants]
        self.functional = functional
        self.cases = cases
        self.inline = set(inline)
        self.total = total
        self.budget = budget
        self.measure = measure
        self.exc = {}

    def tags(self):
        out = set()
        for _, t, _ in self.requires + self.ensures + [c for cl in self.raises.values() for c in cl]:
            out |= {"*"} if t == "*" else set(t)
        if self.flow:
            out |= set(self.flow[0])
        if self.functional:
            out |= {"*"} if self.functional[0] == "*" else set(self.functional[0])
        return out

    def active(self, prop):
        """is the function called through its contract (not inlined) for this property?"""
        return prop not in self.inline

    def duties(self, prop):
        """does this contract promise anything for the property?"""
        t = self.tags()
        return "*" in t or prop in t

    def case_list(self):
        return self.cases or [{}]

    def exc_class(self, name):
        return self.exc[name]


def norm(c):
    if len(c) == 3:
        return tuple(c)
    raise ValueError("clause %r" % (c,))
