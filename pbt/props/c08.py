"""C08: equality and hash are structural, up to the order of commutative operands."""
from hypothesis import strategies as st

from .. import gen
from ..core import dumps, require
from ..engine import Part
from ..folgen import CONSTS, VARS, fol_formula
from ..folgen import term as fol_term
from ..text import RESERVED
from ..spec import BINARY, COMMUTATIVE, UNARY, build, children, fol, freeze, key, norm, rebuild, sublogic, term

ID = "C08"
RULE = (
    "a case is a pair of formulae (of PL, LTL, PLTL, LDL, RE, FOL), the second one made from the first by permuting "
    "commutative operands, or by a small edit (an operator, an operand, an atom, an order, an arity, the logic), or a "
    "pair of unrelated ones; the oracle is the equality of the canonical values of the reference; non-trivial: the two "
    "specs differ"
)
ASSUMPTIONS = ["union of regular expressions is idempotent: repeated operands of Union do not matter"]


def pair(case):
    l1, l2 = case["logic"], case["logic2"]
    s1, s2 = case["spec"], case["spec2"]
    f, g = build(s1, l1), build(s2, l2)
    compare(f, g, l1 == l2 and key(norm(s1)) == key(norm(s2)), s1 if l1 == l2 else [l1, s1], s2 if l1 == l2 else [l2, s2])
    same = l1 == l2 and key(norm(s1)) == key(norm(s2))
    return (l1, dumps(s1)) != (l2, dumps(s2)), [l1, "equal" if same else "different"] + ["other logic"] * (l1 != l2)


def compare(f, g, expected, s1, s2):
    names = (dumps(s1), dumps(s2))
    for x, y in ((f, g), (g, f)):
        require((x == y) is expected, "{}\n  == {}\n  is {}", names[0], names[1], x == y)
        require((x != y) is (not expected), "{}\n  != {}\n  is {}", names[0], names[1], x != y)
        require((x in {y}) == expected, "{}\n  in the set of {}\n  is {}", names[0], names[1], x in {y})
        require(({y: 1}.get(x) == 1) == expected, "{} is looked up wrongly as {}", *names)
        require((x in [y]) == expected and (x in (y,)) == expected, "{} in the list of {} is wrong", *names)
    if expected:
        require(hash(f) == hash(g), "{}\n  equals {}\n  but their hashes differ", *names)
    for x in (f, g):
        require(x == x and hash(x) == hash(x) and not x != x, "{!r} is not equal to itself", x)
        for other in (None, 0, "a", str(x), (), [x], object()):
            require(not (x == other) and x != other, "{!r} equals {!r}", x, other)


def triple(case):
    """Equality is an equivalence relation, and hashing makes the right number of classes."""
    logic = case["logic"]
    fs = [build(s, logic) for s in case["specs"]]
    classes = len({key(norm(s)) for s in case["specs"]})
    require(len(set(fs)) == classes, "{} are {} different formulae, not {}", dumps(case["specs"]), len(set(fs)), classes)
    require(len(dict.fromkeys(reversed(fs))) == classes, "{} make {} keys", dumps(case["specs"]), len(dict.fromkeys(fs)))
    for i, f in enumerate(fs):
        first = next(j for j, s in enumerate(case["specs"]) if key(norm(s)) == key(norm(case["specs"][i])))
        require(fs.index(f) == first, "{} is found at {} of {}", dumps(case["specs"][i]), fs.index(f), dumps(case["specs"]))
    return classes > 1, [logic, "classes %d" % min(classes, 6)]


def terms(case):
    a, b = term(case["t1"]), term(case["t2"])
    expected = freeze(case["t1"]) == freeze(case["t2"])
    compare(a, b, expected, case["t1"], case["t2"])
    return True, ["equal" if expected else "different"]


def large(case):
    """Many different formulae: nothing is decided by a part of their hashes."""
    logic, n, shape = case["logic"], case["n"], case["shape"]
    atoms = [["atom", "%s%d" % (case["prefix"], i)] for i in range(n)]
    if logic == "re":
        atoms = [["prop", x] for x in atoms]
    elif logic == "ldl":
        atoms = [["dia", ["prop", x], ["tt"]] for x in atoms]
    elif logic == "fol":
        atoms = [["pred", "P", [["const", x[1]]]] for x in atoms]
    if shape == "atom":
        specs = atoms
    elif shape == "pairs":
        k = int(n ** 0.5)
        op = "seq" if logic == "re" else "implies"
        specs = [[op, x, y] for x in atoms[:k] for y in atoms[k : 2 * k]]
    elif shape == "first":
        specs = [["seq" if logic == "re" else "implies", x, atoms[0]] for x in atoms[1:]]
    elif shape == "last":
        specs = [["union" if logic == "re" else "and", atoms[0], x] for x in atoms[1:]]
    else:
        specs = [["star", x] for x in atoms] if logic == "re" else [["not", x] for x in atoms]
    fs = [build(s, logic) for s in specs]
    require(len(set(fs)) == len(specs), "{} different formulae such as {} are {} in a set", len(specs), dumps(specs[-1]), len(set(fs)))
    table = {f: i for i, f in enumerate(fs)}
    for i, f in enumerate(fs):
        require(table.get(f) == i, "{} is found as {}", dumps(specs[i]), dumps(specs[table.get(f, 0)]))
    compared = 0
    for bits in (6, 8, 12, 16):
        last = {}
        for i, f in enumerate(fs):
            for low in (hash(f) & (1 << bits) - 1, hash(f) >> bits & (1 << bits) - 1):
                for j in last.get(low, [])[-8:]:
                    compared += 1
                    require(i == j or not f == fs[j], "{} equals {}", dumps(specs[i]), dumps(specs[j]))
                last.setdefault(low, []).append(i)
    for s, f in zip(specs, fs):
        require(build(s, logic) == f, "{} does not equal itself", dumps(s))
    return compared > 100, [logic, shape]


def crowds(tier):
    for logic in gen.LOGICS + ["re", "fol"]:
        for shape in ("atom", "pairs", "unary", "first", "last"):
            for n in (3000,) if tier == "quick" else (3000, 20000):
                yield {"logic": logic, "shape": shape, "n": n, "prefix": "a"}


def wide(tier):
    for logic, one, two in gen.wide_pairs(tier):
        yield {"logic": logic, "logic2": logic, "spec": one, "spec2": two}


def neighbours(tier):
    for logic, one, two in gen.neighbours(tier, gen.LOGICS + ["re"]):
        yield {"logic": logic, "logic2": logic, "spec": one, "spec2": two}


FAMILIES = [
    {"and", "or", "implies", "iff"}, {"next", "wnext", "always", "eventually", "not"}, {"until", "release", "wuntil", "srelease"},
    {"before", "wbefore", "once", "historically", "not"}, {"since", "triggers"}, {"dia", "box"}, {"seq", "union"},
    {"forall", "exists"}, {"tt", "ff", "ptrue", "pfalse"}, {"tt", "ff"},
]
LEGAL = {
    "pl": set(gen.BOOL) | {"not", "tt", "ff"},
    "ltl": set(gen.BOOL) | {"not", "tt", "ff", "ptrue", "pfalse"} | set(UNARY["ltl"]) | set(BINARY["ltl"]),
    "pltl": set(gen.BOOL) | {"not", "tt", "ff", "ptrue", "pfalse"} | set(UNARY["pltl"]) | set(BINARY["pltl"]),
    "ldl": set(gen.BOOL) | {"not", "tt", "ff", "dia", "box"},
    "re": {"seq", "union"},
    "fol": set(gen.BOOL) | {"not", "tt", "ff", "forall", "exists"},
}


def shuffle(draw, spec):
    """The same formula: commutative operands in another order."""
    kids = [shuffle(draw, c) for c in children(spec)]
    if spec[0] in COMMUTATIVE and len(kids) > 1:
        kids = draw(st.permutations(kids))
    return rebuild(spec, kids)


def flip(spec):
    """The same formula: the operands of the commutative operators are reversed."""
    kids = [flip(c) for c in children(spec)]
    return rebuild(spec, kids[::-1] if spec[0] in COMMUTATIVE else kids)


def pop(t, depth):
    """The function without the last argument of it, or of the last function in it."""
    args = t[2]
    if not args:
        return None
    if depth and args[-1][0] == "fun":
        got = pop(args[-1], depth - 1)
        if got:
            return ["fun", t[1], args[:-1] + [got[0]]], got[1]
    return ["fun", t[1], args[:-1]], args[-1]


def edit_term(draw, t):
    """A small edit somewhere in the term."""
    if t[0] != "fun":
        if draw(st.booleans()):
            return ["const" if t[0] == "var" else "var", t[1]]
        return [t[0], draw(st.sampled_from(VARS[:2] + CONSTS[:2]))]
    args = list(t[2])
    if args and draw(st.integers(0, 2)):
        i = draw(st.integers(0, len(args) - 1))
        args[i] = edit_term(draw, args[i])
        return ["fun", t[1], args]
    what = draw(st.sampled_from(["name", "drop", "repeat", "reverse", "merge", "unwrap", "flat", "move", "move", "absorb"]))
    nested = [i for i, x in enumerate(args) if x[0] == "fun"]
    if what == "move" and nested:
        # the last argument of an argument, maybe a deeper one, becomes an argument
        i = draw(st.sampled_from(nested))
        got = pop(args[i], draw(st.integers(0, 2)))
        if got:
            return ["fun", t[1], args[:i] + [got[0], got[1]] + args[i + 1:]]
    if what == "absorb" and nested and nested[0] < len(args) - 1:
        i = nested[0]
        inner = ["fun", args[i][1], args[i][2] + [args[i + 1]]]
        return ["fun", t[1], args[:i] + [inner] + args[i + 2:]]
    if what == "name":
        return ["fun", "g" if t[1] == "f" else "f", args]
    if what == "drop":
        return ["fun", t[1], args[:-1]]
    if what == "repeat":
        return ["fun", t[1], args + args[-1:]]
    if what == "reverse":
        return ["fun", t[1], args[::-1]]
    if what == "merge" and len(args) == 2 and args[0][0] == args[1][0] == "const":
        # another term with the same text
        return ["fun", t[1], [["const", args[0][1] + ", " + args[1][1]]]]
    if what == "unwrap" and args:
        return args[0]
    if what == "flat":
        return ["const", t[1]]
    return t


def edit(draw, logic, spec):
    """A small edit somewhere in the spec."""
    kids = children(spec)
    if kids and draw(st.integers(0, 2)):
        i = draw(st.integers(0, len(kids) - 1))
        new = list(kids)
        new[i] = edit(draw, sublogic(spec[0], logic, i), kids[i])
        return rebuild(spec, new)
    op = spec[0]
    if op == "atom":
        name = spec[1]
        if name[-1] == '"':
            body = name[1:-1]
            near = ['"%s"' % x for x in (body.swapcase(), body + " ", " " + body, body.replace(" ", "  "), body[::-1], body * 2)]
        else:
            near = [name + "_", name + "-b", (name[:-1] + "b").replace("-b", "b"), name[0] + name[1:].swapcase(), name + name, '"%s"' % name]
            near = [x for x in near if x not in RESERVED["ltl"] | RESERVED["ldl"] | RESERVED["pltl"]]
        return ["atom", draw(st.sampled_from(gen.FEW + near))]
    if op == "pred":
        what = draw(st.sampled_from(["name", "drop", "reverse", "term"]))
        ts = list(spec[2])
        if what == "name":
            return ["pred", {"P": "Q"}.get(spec[1], "P"), ts]
        if what == "drop":
            return ["pred", spec[1], ts[:-1]]
        if what == "reverse":
            return ["pred", spec[1], ts[::-1]]
        if not ts or draw(st.integers(0, 2)) == 0:
            return ["pred", spec[1], ts[:-1] + [draw(fol_term())]]
        i = draw(st.integers(0, len(ts) - 1))
        return ["pred", spec[1], ts[:i] + [edit_term(draw, ts[i])] + ts[i + 1:]]
    family = sorted(set().union(*[f for f in FAMILIES if op in f]) & LEGAL[logic] - {op})
    if op in ("forall", "exists") and draw(st.booleans()):
        return [op, draw(st.sampled_from(VARS)), spec[2]]
    choices = ["op"] * bool(family)
    if op not in ("not", "dia", "box", "star", "test", "prop", "forall", "exists") and len(kids) >= 2:
        choices += ["reverse", "repeat"] + ["drop"] * (len(kids) > 2)
    if op in ("not", "star") or (op in UNARY.get(logic, ())):
        choices += ["unwrap"]
    if not choices:
        return spec
    what = draw(st.sampled_from(choices))
    if what == "op":
        new = draw(st.sampled_from(family))
        if (new in ("not",) or op == "not") and len(kids) != 1:
            return spec
        return [new] + spec[1:]
    if what == "reverse":
        return rebuild(spec, kids[::-1])
    if what == "repeat":
        return rebuild(spec, kids + [draw(st.sampled_from(kids))])
    if what == "drop":
        return rebuild(spec, kids[:-1])
    return kids[0]


def make(draw, logic, fuel):
    if logic == "fol":
        return draw(fol_formula(fuel))
    maker = gen.Maker(draw, "ldl" if logic == "re" else logic, exotic=10, repeat=draw(st.sampled_from([0, 0, 8])))
    return maker.formula(logic, fuel)


@st.composite
def pairs(draw):
    logic = draw(st.sampled_from(gen.LOGICS + ["re", "fol"]))
    spec = make(draw, logic, draw(st.integers(0, 3)))
    case = {"logic": logic, "logic2": logic, "spec": spec}
    kind = draw(st.sampled_from(["shuffle", "edit", "edit", "both", "both", "other", "logic"]))
    if kind == "logic" and logic in ("pl", "ltl", "pltl"):
        maker = gen.Maker(draw, "pl", exotic=10)
        case["spec"] = spec = maker.formula("pl", draw(st.integers(0, 2)))
        case["logic2"] = draw(st.sampled_from([x for x in ("pl", "ltl", "pltl") if x != logic]))
        case["spec2"] = spec
        return case
    if kind == "other":
        case["spec2"] = make(draw, logic, draw(st.integers(0, 2)))
        return case
    other = spec
    if kind in ("shuffle", "both"):
        other = shuffle(draw, other)
    if kind in ("edit", "both"):
        other = edit(draw, logic, other)
    case["spec2"] = other
    return case


@st.composite
def families(draw):
    logic = draw(st.sampled_from(gen.LOGICS + ["re", "fol"]))
    specs = [make(draw, logic, draw(st.integers(0, 2)))]
    for _ in range(draw(st.integers(1, 8))):
        base = draw(st.sampled_from(specs))
        base = shuffle(draw, base) if draw(st.booleans()) else edit(draw, logic, base)
        specs.append(base)
    return {"logic": logic, "specs": specs}


@st.composite
def term_pairs(draw):
    t1 = draw(fol_term(fuel=2))
    names = VARS[:2] + CONSTS[:2]
    kind = draw(st.sampled_from([0, 1, 2, 3, 3, 3, 4]))
    if kind == 0:
        t2 = t1
    elif kind == 1:
        t2 = draw(fol_term(fuel=2))
    elif kind == 2:
        n = draw(st.sampled_from(names))
        t1, t2 = ["var", n], ["const", n]
    elif kind == 3:
        t2 = edit_term(draw, t1)
    elif t1[0] == "fun":
        args = [draw(fol_term()) if draw(st.booleans()) else a for a in t1[2]]
        t2 = ["fun", draw(st.sampled_from(["f", "g"])), args]
    else:
        t2 = [draw(st.sampled_from(["var", "const"])), draw(st.sampled_from(names + [t1[1]]))]
    return {"t1": t1, "t2": t2}


VALUES = [None, 0, 1, 1.0, "x", (1, 2), False, 10 ** 30]


def with_value(t, values):
    """A term whose constants have values."""
    kind, name = t[0], t[1]
    if kind == "const":
        return fol.Constant(name, VALUES[values[len(name) % len(values)]])
    return fol.Variable(name) if kind == "var" else fol.Function(name, [with_value(x, values) for x in t[2]])


def valued(case):
    """Constants with values: whether or not they matter, equality goes with hashes."""
    t = case["term"]
    made = []
    for values in case["values"]:
        u = with_value(t, values)
        made += [u, fol.Predicate("P", [u, u]), fol.ForAll(fol.Variable("x"), fol.Predicate("P", [u])), ~fol.Predicate("P", [u])]
    for i, f in enumerate(made):
        again = with_value(t, case["values"][i // 4]) if i % 4 == 0 else f
        require(f == again and hash(f) == hash(again), "{!r} is not equal to itself", f)
        for j, g in enumerate(made):
            require((f == g) == (g == f) == (not f != g), "equality of {!r} and {!r}, with values {}, is not symmetric", f, g, case["values"])
            if f == g:
                require(hash(f) == hash(g), "{!r} and {!r}, with values {}, are equal, and their hashes differ", f, g, case["values"])
                require(i % 4 == j % 4, "{!r} and {!r} are equal", f, g)
                for h in made[j % 4::4]:
                    require((g == h) == (f == h), "equality of {!r}, with values {}, is not transitive", f, case["values"])
    return True, []


def _has_constant(t):
    return t[0] == "const" or t[0] == "fun" and any(_has_constant(x) for x in t[2])


PARTS = [
    Part(
        "values", valued,
        st.fixed_dictionaries({
            "term": fol_term(fuel=2).filter(_has_constant),
            "values": st.lists(st.lists(st.integers(0, len(VALUES) - 1), min_size=1, max_size=2), min_size=2, max_size=3),
        }),
        quick=800, thorough=10000,
    ),
    Part("wide", pair, cases=wide),
    Part("neighbours", pair, cases=neighbours),
    Part("large", large, cases=crowds),
    Part("pairs", pair, pairs(), quick=14000, thorough=400000),
    Part("classes", triple, families(), quick=4000, thorough=100000),
    Part("terms", terms, term_pairs(), quick=2000, thorough=30000),
]
