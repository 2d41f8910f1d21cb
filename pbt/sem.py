"""Reference semantics of the logics, on specs (see spec.py)."""


def boolean(op, values):
    """Value of a boolean operator, given an iterator over the values of the operands."""
    values = list(values)
    if op == "not":
        return not values[0]
    if op == "and":
        return all(values)
    if op == "or":
        return any(values)
    if op == "implies":  # right associative
        result = values[-1]
        for v in reversed(values[:-1]):
            result = (not v) or result
        return result
    if op == "iff":  # associative: true iff an even number of operands is false
        return sum(1 for v in values if not v) % 2 == 0
    raise KeyError(op)


BOOL = ("not", "and", "or", "implies", "iff")


def pl(spec, valuation):
    """Truth value of a propositional spec; 'valuation' is the set of the true atoms."""
    op = spec[0]
    if op == "atom":
        return spec[1] in valuation
    if op == "tt":
        return True
    if op == "ff":
        return False
    return boolean(op, (pl(c, valuation) for c in spec[1:]))


def _memo(fn):
    """Memoize a method on (id of the node, position) for the life of the evaluator."""

    def wrapped(self, spec, i):
        k = (id(spec), i)
        if k not in self.memo:
            self.keep.append(spec)
            self.memo[k] = fn(self, spec, i)
        return self.memo[k]

    return wrapped


class Trace:
    """Evaluator of temporal formulae at the positions of a finite trace (a list of sets of atoms)."""

    def __init__(self, trace):
        self.trace = [set(s) for s in trace]
        self.n = len(trace)
        self.memo = {}
        self.keep = []

    # LTL over finite traces; positions 0 .. n-1

    @_memo
    def ltl(self, f, i):
        op, n = f[0], self.n
        if op == "atom":
            return f[1] in self.trace[i]
        if op in ("tt", "ptrue"):
            return True
        if op in ("ff", "pfalse"):
            return False
        if op in BOOL:
            return boolean(op, [self.ltl(c, i) for c in f[1:]])
        if op == "last":
            return i == n - 1
        if op == "next":
            return i + 1 < n and self.ltl(f[1], i + 1)
        if op == "wnext":
            return i + 1 >= n or self.ltl(f[1], i + 1)
        if op == "always":
            return all(self.ltl(f[1], j) for j in range(i, n))
        if op == "eventually":
            return any(self.ltl(f[1], j) for j in range(i, n))
        if len(f) > 3:  # chains associate to the right
            f = [op, f[1], [op] + f[2:]]
            self.keep.append(f)
        a, b = f[1], f[2]
        if op in ("until", "wuntil"):
            for j in range(i, n):
                if self.ltl(b, j):
                    return True
                if not self.ltl(a, j):
                    return False
            return op == "wuntil"
        if op in ("release", "srelease"):
            for j in range(i, n):
                if not self.ltl(b, j):
                    return False
                if self.ltl(a, j):
                    return True
            return op == "release"
        raise KeyError(op)

    # past LTL

    @_memo
    def pltl(self, f, i):
        op = f[0]
        if op == "atom":
            return f[1] in self.trace[i]
        if op in ("tt", "ptrue"):
            return True
        if op in ("ff", "pfalse"):
            return False
        if op in BOOL:
            return boolean(op, [self.pltl(c, i) for c in f[1:]])
        if op == "start":
            return i == 0
        if op == "before":
            return i > 0 and self.pltl(f[1], i - 1)
        if op == "wbefore":
            return i == 0 or self.pltl(f[1], i - 1)
        if op == "once":
            return any(self.pltl(f[1], j) for j in range(0, i + 1))
        if op == "historically":
            return all(self.pltl(f[1], j) for j in range(0, i + 1))
        if len(f) > 3:
            f = [op, f[1], [op] + f[2:]]
            self.keep.append(f)
        a, b = f[1], f[2]
        if op == "since":
            for j in range(i, -1, -1):
                if self.pltl(b, j):
                    return True
                if not self.pltl(a, j):
                    return False
            return False
        if op == "triggers":
            for j in range(i, -1, -1):
                if not self.pltl(b, j):
                    return False
                if self.pltl(a, j):
                    return True
            return True
        raise KeyError(op)

    # LDL over finite traces; positions 0 .. n (n: the trace is over)

    @_memo
    def ldl(self, f, i):
        op = f[0]
        if op == "tt":
            return True
        if op == "ff":
            return False
        if op in BOOL:
            return boolean(op, [self.ldl(c, i) for c in f[1:]])
        if op == "end":
            return i == self.n
        if op == "last":
            return i == self.n - 1
        if op == "dia":
            return any(self.ldl(f[2], j) for j in self.reach(f[1], i))
        if op == "box":
            return all(self.ldl(f[2], j) for j in self.reach(f[1], i))
        raise KeyError(op)

    @_memo
    def reach(self, r, i):
        """Positions at which a match of the regular expression, from position i, can end."""
        op = r[0]
        if op == "prop":
            return {i + 1} if i < self.n and pl(r[1], self.trace[i]) else set()
        if op == "test":
            return {i} if self.ldl(r[1], i) else set()
        if op == "union":
            return set().union(*[self.reach(x, i) for x in r[1:]])
        if op == "seq":
            current = {i}
            for x in r[1:]:
                current = set().union(*[self.reach(x, j) for j in current]) if current else set()
            return current
        if op == "star":
            done, todo = {i}, [i]
            while todo:
                for j in self.reach(r[1], todo.pop()):
                    if j not in done:
                        done.add(j)
                        todo.append(j)
            return done
        raise KeyError(op)

    def positions(self, logic):
        """Positions at which formulae of the logic are evaluated."""
        return range(self.n + 1) if logic == "ldl" else range(self.n)

    def value(self, f, logic, i):
        """Truth value."""
        if logic == "pl":
            return pl(f, self.trace[i])
        return {"ltl": self.ltl, "pltl": self.pltl, "ldl": self.ldl}[logic](f, i)

    def table(self, f, logic):
        """Truth values at all positions."""
        return [self.value(f, logic, i) for i in self.positions(logic)]
