"""
Formulae as plain data, independent of the library.

A spec is a nested list: [op, argument...]. The logic a spec belongs to is given
by the context. Operators:

  all logics:  ["atom", name] (pl, ltl, pltl)  ["tt"]  ["ff"]  ["not", x]
               ["and", x, y...]  ["or", ...]  ["implies", ...]  ["iff", ...]
  ltl, pltl:   ["ptrue"]  ["pfalse"]
  ltl:         next wnext always eventually (unary), until release wuntil srelease
  pltl:        before wbefore once historically (unary), since triggers
  ldl:         ["dia", regex, f]  ["box", regex, f]
  regex:       ["seq", ...]  ["union", ...]  ["star", r]  ["test", ldl]  ["prop", pl]
  fol:         ["pred", name, terms]  ["forall", var, f]  ["exists", var, f]
  terms:       ["var", n]  ["const", n]  ["fun", n, terms]
"""
import os

from .core import Violation, freeze

REPO = os.environ.get("PBT_REPO", "/repo")
import pylogics_modalities  # noqa: E402
from pylogics_modalities import parsers  # noqa: E402
from pylogics_modalities.syntax import base, fol, ldl, ltl, pl, pltl  # noqa: E402
from pylogics_modalities.syntax.base import Logic  # noqa: E402

if not os.path.abspath(pylogics_modalities.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit("the library under test is not the one of %s" % REPO)

LOGIC = {"pl": Logic.PL, "ltl": Logic.LTL, "pltl": Logic.PLTL, "ldl": Logic.LDL, "re": Logic.RE, "fol": Logic.FOL}
LOGIC_NAME = {v: k for k, v in LOGIC.items()}
PARSE = {
    "pl": parsers.parse_pl,
    "ltl": parsers.parse_ltl,
    "pltl": parsers.parse_pltl,
    "ldl": parsers.parse_ldl,
}
ATOMIC = {"pl": pl.Atomic, "ltl": ltl.Atomic, "pltl": pltl.Atomic}
BOOLEAN = {"and": base.And, "or": base.Or, "implies": base.Implies, "iff": base.Equivalence}
UNARY = {
    "ltl": {"next": ltl.Next, "wnext": ltl.WeakNext, "always": ltl.Always, "eventually": ltl.Eventually},
    "pltl": {
        "before": pltl.Before,
        "wbefore": pltl.WeakBefore,
        "once": pltl.Once,
        "historically": pltl.Historically,
    },
}
BINARY = {
    "ltl": {"until": ltl.Until, "release": ltl.Release, "wuntil": ltl.WeakUntil, "srelease": ltl.StrongRelease},
    "pltl": {"since": pltl.Since, "triggers": pltl.Triggers},
}
REGEX = {"seq": ldl.Seq, "union": ldl.Union}
PTRUE = {"ltl": ltl.PropositionalTrue, "pltl": pltl.PropositionalTrue}
PFALSE = {"ltl": ltl.PropositionalFalse, "pltl": pltl.PropositionalFalse}

# operand order does not matter
COMMUTATIVE = {"and", "or", "iff", "union"}


def term(spec):
    """Build a term."""
    kind, name = spec[0], spec[1]
    if kind == "var":
        return fol.Variable(name)
    if kind == "const":
        return fol.Constant(name)
    return fol.Function(name, [term(t) for t in spec[2]])


def build(spec, logic):
    """Build a formula with the constructors of the library."""
    op = spec[0]
    if op == "atom":
        return ATOMIC[logic](spec[1])
    if op == "tt":
        return base.TrueFormula(logic=LOGIC[logic])
    if op == "ff":
        return base.FalseFormula(logic=LOGIC[logic])
    if op == "ptrue":
        return PTRUE[logic]()
    if op == "pfalse":
        return PFALSE[logic]()
    if op == "not":
        return base.Not(build(spec[1], logic))
    if op in BOOLEAN:
        return BOOLEAN[op](*[build(x, logic) for x in spec[1:]])
    if op in UNARY.get(logic, ()):
        return UNARY[logic][op](build(spec[1], logic))
    if op in BINARY.get(logic, ()):
        return BINARY[logic][op](*[build(x, logic) for x in spec[1:]])
    if op in ("dia", "box"):
        cls = ldl.Diamond if op == "dia" else ldl.Box
        return cls(build(spec[1], "re"), build(spec[2], "ldl"))
    if op in REGEX:
        return REGEX[op](*[build(x, "re") for x in spec[1:]])
    if op == "star":
        return ldl.Star(build(spec[1], "re"))
    if op == "test":
        return ldl.Test(build(spec[1], "ldl"))
    if op == "prop":
        return ldl.Prop(build(spec[1], "pl"))
    if op == "pred":
        return fol.Predicate(spec[1], [term(t) for t in spec[2]])
    if op in ("forall", "exists"):
        cls = fol.ForAll if op == "forall" else fol.Exists
        return cls(fol.Variable(spec[1]), build(spec[2], "fol"))
    # shorthands
    if op == "last":
        return ltl.Last() if logic == "ltl" else ldl.Last()
    if op == "end":
        return ldl.End()
    if op == "start":
        return pltl.Start()
    raise KeyError(op)


def walk_term(t):
    """Read a term back."""
    if type(t) is fol.Variable:
        return ["var", t.name]
    if type(t) is fol.Constant:
        return ["const", t.name]
    if type(t) is fol.Function:
        return ["fun", t.name, [walk_term(x) for x in t.operands]]
    raise Violation("expected a term, found %r of type %s" % (t, type(t).__name__))


_BOOLEAN_OF = {v: k for k, v in BOOLEAN.items()}
_UNARY_OF = {v: (lg, k) for lg, d in UNARY.items() for k, v in d.items()}
_BINARY_OF = {v: (lg, k) for lg, d in BINARY.items() for k, v in d.items()}
_REGEX_OF = {v: k for k, v in REGEX.items()}


def walk(f, logic):
    """
    Read a formula of the library back, through its public accessors.

    The result is checked to be made of nodes of the given logic only.
    """

    def bad(what):
        raise Violation("%s in a formula of %s: %r (%s)" % (what, logic, f, type(f).__name__))

    cls = type(f)
    if not isinstance(f, base.Formula):
        bad("not a formula")
    if f.logic != LOGIC[logic]:
        bad("node tagged with logic %s" % (f.logic,))
    if cls is base.TrueFormula:
        return ["tt"]
    if cls is base.FalseFormula:
        return ["ff"]
    if logic in PTRUE and cls is PTRUE[logic]:
        return ["ptrue"]
    if logic in PFALSE and cls is PFALSE[logic]:
        return ["pfalse"]
    if logic in ATOMIC and cls is ATOMIC[logic]:
        return ["atom", str(f.name)]
    if cls is base.Not:
        return ["not", walk(f.argument, logic)]
    if cls in _BOOLEAN_OF:
        return [_BOOLEAN_OF[cls]] + [walk(x, logic) for x in f.operands]
    if cls in _UNARY_OF and _UNARY_OF[cls][0] == logic:
        return [_UNARY_OF[cls][1], walk(f.argument, logic)]
    if cls in _BINARY_OF and _BINARY_OF[cls][0] == logic:
        return [_BINARY_OF[cls][1]] + [walk(x, logic) for x in f.operands]
    if logic == "ldl" and cls in (ldl.Diamond, ldl.Box):
        op = "dia" if cls is ldl.Diamond else "box"
        return [op, walk(f.regular_expression, "re"), walk(f.tail_formula, "ldl")]
    if logic == "re":
        if cls in _REGEX_OF:
            return [_REGEX_OF[cls]] + [walk(x, "re") for x in f.operands]
        if cls is ldl.Star:
            return ["star", walk(f.argument, "re")]
        if cls is ldl.Test:
            return ["test", walk(f.argument, "ldl")]
        if cls is ldl.Prop:
            return ["prop", walk(f.argument, "pl")]
    if logic == "fol":
        if cls is fol.Predicate:
            return ["pred", f.name, [walk_term(t) for t in f.operands]]
        if cls in (fol.ForAll, fol.Exists):
            var = f.variable
            if type(var) is not fol.Variable:
                bad("quantifier over %r" % (var,))
            return ["forall" if cls is fol.ForAll else "exists", var.name, walk(f.formula, "fol")]
    bad("unexpected node")


# -- structure -----------------------------------------------------------------


def sublogic(op, logic, index):
    """Logic of the index-th child of a node."""
    if op in ("dia", "box"):
        return "re" if index == 0 else "ldl"
    if op == "test":
        return "ldl"
    if op == "prop":
        return "pl"
    return logic


def children(spec):
    """Sub-formulae of a spec."""
    op = spec[0]
    if op in ("atom", "pred", "tt", "ff", "ptrue", "pfalse", "last", "end", "start"):
        return []
    if op in ("forall", "exists"):
        return [spec[2]]
    return list(spec[1:])


def rebuild(spec, kids):
    """The same node with other children."""
    op = spec[0]
    if not children(spec):
        return spec
    if op in ("forall", "exists"):
        return [op, spec[1]] + list(kids)
    return [op] + list(kids)


def size(spec):
    """Number of nodes."""
    return 1 + sum(map(size, children(spec)))


def depth(spec):
    """Height of the tree."""
    return 1 + max(map(depth, children(spec)), default=0)


def ops(spec):
    """Operators used."""
    found = {spec[0]}
    for c in children(spec):
        found |= ops(c)
    return found


def atoms(spec):
    """Names of the atoms used, in order of occurrence."""
    if spec[0] == "atom":
        return [spec[1]]
    found = []
    for c in children(spec):
        for a in atoms(c):
            if a not in found:
                found.append(a)
    return found


def key(spec):
    """Canonical value of a spec: equal for the specs that differ in the order of commutative operands only."""
    op = spec[0]
    kids = children(spec)
    if not kids:
        return freeze(spec)
    keys = [key(c) for c in kids]
    body = frozenset(keys) if op in COMMUTATIVE else tuple(keys)
    if op in ("forall", "exists"):
        return (op, spec[1], body)
    return (op, body)


def cancels(spec):
    """Whether equal operands of an equivalence cancel out somewhere: the order of the other ones is not specified."""
    kids = children(spec)
    if spec[0] == "iff" and len({key(norm(c)) for c in kids}) < len(kids):
        return True
    return any(cancels(c) for c in kids)


# -- the documented construction-time simplifications ----------------------------


def negate(spec):
    """Negation of a normal spec."""
    swap = {"tt": ["ff"], "ff": ["tt"], "ptrue": ["pfalse"], "pfalse": ["ptrue"]}
    if spec[0] in swap:
        return swap[spec[0]]
    if spec[0] == "not":
        return spec[1]
    return ["not", spec]


def norm(spec):
    """
    The formula the constructors are documented to return.

    - negation: involutive, and it swaps the constants;
    - and/or: nested operands of the same operator are lifted, repeated operands and
      identity elements are dropped, the absorbing element (or an operand together with
      its negation) absorbs; order of first occurrence;
    - implication: a tail 'false -> ...' is true;
    - equivalence: equal operands cancel out in pairs.
    """
    op = spec[0]
    if op == "last":
        raise KeyError("shorthands have to be expanded first")
    kids = [norm(c) for c in children(spec)]
    if not kids:
        return list(spec)
    if op == "not":
        return negate(kids[0])
    if op in ("and", "or"):
        identity, absorbing = (["tt"], ["ff"]) if op == "and" else (["ff"], ["tt"])
        flat = []
        for k in kids:
            flat.extend(k[1:] if k[0] == op else [k])
        seen, result = set(), []
        for k in flat:
            kk = key(k)
            if k == identity or kk in seen:
                continue
            seen.add(kk)
            result.append(k)
        if any(k == absorbing or key(negate(k)) in seen for k in result):
            return absorbing
        if not result:
            return identity
        return result[0] if len(result) == 1 else [op] + result
    if op == "implies":
        for i, k in enumerate(kids[:-1]):
            if k == ["ff"]:
                kids = kids[:i] + [["tt"]]
                break
        return kids[0] if len(kids) == 1 else [op] + kids
    if op == "iff":
        counts = {}
        for k in kids:
            counts.setdefault(key(k), []).append(k)
        odd = [v[0] for v in counts.values() if len(v) % 2]
        if not odd:
            return ["tt"]
        return odd[0] if len(odd) == 1 else [op] + odd
    return rebuild(spec, kids)


EXPAND = {
    ("ltl", "last"): ["wnext", ["ff"]],
    ("pltl", "start"): ["not", ["before", ["tt"]]],
    ("ldl", "end"): ["box", ["prop", ["tt"]], ["ff"]],
    ("ldl", "last"): ["dia", ["prop", ["tt"]], ["box", ["prop", ["tt"]], ["ff"]]],
}


def expand(spec, logic):
    """Replace the shorthands with their definitions."""
    if (logic, spec[0]) in EXPAND:
        return EXPAND[(logic, spec[0])]
    kids = [expand(c, sublogic(spec[0], logic, i)) for i, c in enumerate(children(spec))]
    return rebuild(spec, kids)
