"""
Finite models of propositional and first-order specs, evaluated all at once.

A family of models of a domain {0..n-1} is numbered from 0; a set of models is an integer,
whose i-th bit tells whether the i-th model belongs to it. Free variables and constants
have a value in each model, so that entailment is the one of natural deduction.
"""
import random

from .spec import children

LIMIT = 1 << 12


def term_symbols(t, bound, found):
    kind, name = t[0], t[1]
    if kind == "var":
        if name not in bound:
            found.add(("value", "var", name))
    elif kind == "const":
        found.add(("value", "const", name))
    else:
        found.add(("fun", name, len(t[2])))
        for x in t[2]:
            term_symbols(x, bound, found)


def symbols(spec, bound=frozenset(), found=None):
    """The symbols that a model has to interpret."""
    found = set() if found is None else found
    op = spec[0]
    if op == "atom":
        found.add(("pred", spec[1], 0))
    elif op == "pred":
        found.add(("pred", spec[1], len(spec[2])))
        for t in spec[2]:
            term_symbols(t, bound, found)
    elif op in ("forall", "exists"):
        symbols(spec[2], bound | {spec[1]}, found)
    else:
        for c in children(spec):
            symbols(c, bound, found)
    return found


class Family:
    """A family of models."""

    def __init__(self, syms, n, limit=LIMIT, seed=0):
        self.n = n
        # cells: (symbol, arguments) -> number of possible values
        cells = []
        for s in sorted(syms, key=repr):
            if s[0] == "value":
                cells.append((s, (), n))
            else:
                size = 2 if s[0] == "pred" else n
                for args in self.tuples(s[2]):
                    cells.append((s, args, size))
        total = 1
        for _, _, size in cells:
            total *= size
        self.exhaustive = total <= limit
        self.table = {}
        if self.exhaustive:
            self.count = total
            stride = 1
            for s, args, size in cells:
                period = stride * size
                for v in range(size):
                    if s[0] == "pred" and v == 0:
                        continue
                    block = ((1 << stride) - 1) << (v * stride)
                    mask, width = block, period
                    while width < total:  # repeat the block
                        mask |= mask << width
                        width *= 2
                    self.table[(s, args, v)] = mask & ((1 << total) - 1)
                stride = period
        else:
            self.count = limit
            rng = random.Random("%s %s" % (seed, n))
            for s, args, size in cells:
                if size == 2 and s[0] == "pred":
                    self.table[(s, args, 1)] = rng.getrandbits(limit)
                else:
                    rest = (1 << limit) - 1
                    for v in range(size - 1):
                        # an even split among the values left
                        left = size - v
                        if left == 2:
                            mask = rng.getrandbits(limit)
                        else:
                            mask = rng.getrandbits(limit) & (rng.getrandbits(limit) if left >= 3 else -1)
                        mask &= rest
                        self.table[(s, args, v)] = mask
                        rest &= ~mask
                    self.table[(s, args, size - 1)] = rest
        self.all = (1 << self.count) - 1

    def tuples(self, arity):
        out = [()]
        for _ in range(arity):
            out = [t + (d,) for t in out for d in range(self.n)]
        return out

    def term(self, t, env):
        """For each element, the models in which the term denotes it."""
        kind, name = t[0], t[1]
        if kind == "var" and name in env:
            return [self.all if d == env[name] else 0 for d in range(self.n)]
        if kind in ("var", "const"):
            return [self.table[(("value", kind, name), (), d)] for d in range(self.n)]
        result = [0] * self.n
        for args, mask in self.arguments(t[2], env):
            for d in range(self.n):
                result[d] |= mask & self.table[(("fun", name, len(t[2])), args, d)]
        return result

    def arguments(self, terms, env):
        """The tuples of elements, each with the models in which the terms denote it."""
        out = [((), self.all)]
        for t in terms:
            value = self.term(t, env)
            out = [(a + (d,), m & value[d]) for a, m in out for d in range(self.n) if m & value[d]]
        return out

    def holds(self, f, env=None):
        """The models in which the formula holds."""
        env = env or {}
        op = f[0]
        if op == "tt":
            return self.all
        if op == "ff":
            return 0
        if op == "atom":
            return self.table[(("pred", f[1], 0), (), 1)]
        if op == "pred":
            result = 0
            for args, mask in self.arguments(f[2], env):
                result |= mask & self.table[(("pred", f[1], len(f[2])), args, 1)]
            return result
        if op in ("forall", "exists"):
            result = self.all if op == "forall" else 0
            for d in range(self.n):
                v = self.holds(f[2], dict(env, **{f[1]: d}))
                result = result & v if op == "forall" else result | v
            return result
        values = [self.holds(c, env) for c in f[1:]]
        if op == "not":
            return self.all & ~values[0]
        if op == "and":
            result = self.all
            for v in values:
                result &= v
            return result
        if op == "or":
            result = 0
            for v in values:
                result |= v
            return result
        if op == "implies":
            result = values[-1]
            for v in reversed(values[:-1]):
                result = (self.all & ~v) | result
            return result
        if op == "iff":
            result = self.all
            for v in values:
                result = self.all & ~(result ^ v)
            return result
        raise KeyError(op)

    def model(self, index):
        """A model of the family, written out."""
        out = {"domain": list(range(self.n))}
        for (s, args, v), mask in sorted(self.table.items(), key=repr):
            if mask >> index & 1:
                name = s[2] if s[0] == "value" else s[1]
                out["%s%s" % (name, "(%s)" % ",".join(map(str, args)) if args else "")] = v
        return out


def families(specs, first_order, sizes=(1, 2), limit=LIMIT):
    """Families of models that interpret all the symbols of the specs."""
    syms = set()
    for s in specs:
        symbols(s, frozenset(), syms)
    return [Family(syms, n, limit) for n in (sizes if first_order else (1,))]
