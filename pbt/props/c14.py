"""C14: operations do not change what they are given, and give the same result again."""
import collections
import copy
import pickle
import re

from hypothesis import strategies as st

from .. import gen, nd, ndgen, text
from ..core import dumps, freeze, require
from ..engine import Part
from ..folgen import fol_formula
from ..folgen import term as fol_term
from ..spec import BINARY, BOOLEAN, PARSE, REGEX, UNARY, base, build, fol, ldl, ltl, pltl, term, walk, walk_term
from .c09 import one, string

from pylogics_modalities.exceptions import PylogicsError
from pylogics_modalities.semantics.pl import evaluate_pl

ID = "C14"
RULE = (
    "a case is a pool of formulae with a list of operations on them (combine, negate, compare, hash, print, evaluate, "
    "copy, pickle, parse, failing constructions), each one done twice; or constructors given a list that the caller "
    "changes later; or a proof; after each operation, all the formulae, the interpretations, the lists and the proofs "
    "are read again and compared with what they were; non-trivial: at least two operations, on a formula with operands"
)
ASSUMPTIONS = ["the attributes of terms are not assigned to by the user"]


def look(f, logic):
    """All that can be observed of a formula."""
    return freeze(walk(f, logic)), repr(f), string(f, logic), hash(f), str(f)


INTERPRETATIONS = [
    set(), {"a"}, {"b", "c", "zz"}, {"a", "b", "c", "d"}, {}, {"a": True}, {"a": False, "b": True}, {"c": True, "d": False, "zz": True},
    collections.defaultdict(bool, {"a": True}), collections.defaultdict(lambda: True, {"b": False}), collections.Counter("abb"),
]


def apply(op, pool, case):
    """Do an operation: what it gives, and the formula it makes (with its logic), if any."""
    kind = op[0]
    f, logic = pool[op[1] % len(pool)]
    same = [g for g, lg in pool if lg == logic]
    g = same[op[2] % len(same)]
    h = same[op[3] % len(same)]
    other, other_logic = pool[op[2] % len(pool)]
    made, made_logic = None, logic
    if kind == "not":
        made = None if logic == "re" else base.Not(f)
    elif kind == "~":
        made = None if logic == "re" else ~f
    elif kind in BOOLEAN:
        made = None if logic == "re" else BOOLEAN[kind](f, g, h) if op[3] % 3 == 0 else BOOLEAN[kind](f, g)
    elif kind in ("&", "|", ">>"):
        if logic != "re":
            made = f & g if kind == "&" else f | g if kind == "|" else f >> g
    elif kind == "unary":
        table = UNARY.get(logic)
        if table:
            made = table[sorted(table)[op[2] % 4]](f)
        elif logic == "re":
            made = ldl.Star(f)
        elif logic == "ldl":
            made, made_logic = ldl.Test(f), "re"
        elif logic == "pl":
            made, made_logic = ldl.Prop(f), "re"
        elif logic == "fol":
            made = (fol.ForAll if op[2] % 2 else fol.Exists)(fol.Variable("xyz"[op[3] % 3]), f)
    elif kind == "binary":
        table = BINARY.get(logic) or (REGEX if logic == "re" else None)
        if table:
            made = table[sorted(table)[op[3] % len(table)]](f, g)
        elif logic == "ldl":
            res = [x for x, lg in pool if lg == "re"]
            if res:
                made = (ldl.Diamond if op[3] % 2 else ldl.Box)(res[op[2] % len(res)], f)
    elif kind == "copy":
        made = copy.copy(f) if op[3] % 2 else copy.deepcopy(f)
    elif kind == "pickle":
        made = pickle.loads(pickle.dumps(f))
    elif kind == "compare":
        return (f == other, f != other, other == f, f in {other}, f in [other]), None, None
    elif kind == "print":
        return (string(f, logic), repr(f), str(f), hash(f)), None, None
    elif kind == "evaluate":
        if logic != "pl":
            try:
                evaluate_pl(f, INTERPRETATIONS[op[2] % len(INTERPRETATIONS)])
            except PylogicsError:
                return "error", None, None
            return None, None, None
        i = copy.copy(INTERPRETATIONS[op[2] % len(INTERPRETATIONS)])
        result = evaluate_pl(f, i)
        require(
            i == INTERPRETATIONS[op[2] % len(INTERPRETATIONS)], "evaluating {!r} in {!r} makes it {!r}", f,
            INTERPRETATIONS[op[2] % len(INTERPRETATIONS)], i,
        )
        return result, None, None
    elif kind == "mixed":
        # it has to fail, or to leave everything as it was
        try:
            BOOLEAN[gen.BOOL[op[3] % 4]](f, other)
        except (PylogicsError, ValueError, AssertionError):
            return "error", None, None
        return None, None, None
    elif kind == "parse":
        if logic in PARSE:
            made = PARSE[logic](text.render(walk(f, logic), logic, text.plain))
    elif kind == "shorthand":
        made, made_logic = [(ltl.Last, "ltl"), (ldl.Last, "ldl"), (ldl.End, "ldl"), (pltl.Start, "pltl")][op[2] % 4]
        made = made()
    if made is None:
        return None, None, None
    return look(made, made_logic), made, made_logic


def operations(case):
    pool = [(build(x["spec"], x["logic"]), x["logic"]) for x in case["formulas"]]
    seen = [look(f, lg) for f, lg in pool]
    done = []
    big = False
    for op in case["ops"]:
        first, made, logic = apply(op, pool, case)
        second, again, _ = apply(op, pool, case)
        require(first == second, "{} done twice gives {!r}, then {!r}: {}", op, first, second, dumps(case))
        require(made is None or made == again, "{} done twice gives two different formulae: {}", op, dumps(case))
        for (f, lg), before in zip(pool, seen):
            now = look(f, lg)
            require(now == before, "{} of {}\n  changes {!r}\n  into {!r}", op, dumps(case), before, now)
        if first is not None:
            done.append(op[0])
            big = big or len(walk(*pool[op[1] % len(pool)])) > 1
        if made is not None and len(pool) < 12 and len(repr(made)) < 3000:
            pool.append((made, logic))
            seen.append(first)
    return len(done) >= 2 and big, sorted(set(done))


def arguments(case):
    """Changing a list after it was given to a constructor, or the operands that were returned, changes nothing."""
    kind, specs, edit = case["kind"], case["terms"], case["edit"]
    operands = [term(t) for t in specs]
    given = list(operands)
    extra = fol.Constant("zz")
    if kind == "function":
        t = fol.Function("f", given)

        def shape():
            return freeze(walk_term(t)), str(t), repr(t), hash(t)
    else:
        if kind == "predicate":
            f = fol.Predicate("P", given)
        elif kind == "call":
            f = fol.Predicate("P", operands)
            f = f(*given)
        else:
            f = fol.ForAll(fol.Variable("x"), fol.Predicate("P", given))

        def shape():
            return freeze(walk(f, "fol")), str(f), repr(f), hash(f)

    before = shape()
    require([walk_term(x) for x in given] == [walk_term(x) for x in operands] and len(given) == len(operands),
            "the constructor changes its list of operands: {}", given)
    targets = [given]
    if kind in ("predicate", "call"):
        targets.append(f.operands)
    if kind == "function":
        targets.append(t.operands)
    # also the operands of the terms inside
    inner = list(t.operands) if kind == "function" else list(f.operands) if kind != "quantifier" else list(f.formula.operands)
    while inner:
        x = inner.pop()
        if hasattr(x, "operands"):
            targets.append(x.operands)
            inner.extend(x.operands)
    for target in targets:
        if isinstance(target, tuple):
            continue
        if edit == "append":
            target.append(extra)
        elif edit == "clear":
            del target[:]
        elif edit == "set" and target:
            target[0] = extra
        elif edit == "reverse":
            target.reverse()
        now = shape()
        require(now == before, "{} on the list of operands {} of a {} changes it from {!r} to {!r}", edit, dumps(specs), kind, before, now)
    return len(specs) >= 1, [kind, edit]


def defaults(case):
    """Formulae made with the default arguments are not shared."""
    f = fol.Predicate(case["names"][0])
    for t in case["terms"]:
        try:
            f.operands.append(term(t))
        except AttributeError:
            break
    for name in case["names"]:
        require(list(fol.Predicate(name).operands) == [], "a predicate made without operands has {}", fol.Predicate(name).operands)
    return True, []


def elements(case):
    """The sequence given to an n-ary operator with *, and the operands of the result, are not shared."""
    logic, kind = case["logic"], case["kind"]
    fs = [build(s, logic) for s in case["specs"]]
    given = list(fs)
    f = BOOLEAN[kind](*given)
    require(len(given) == len(fs) and all(x is y for x, y in zip(given, fs)), "{} changes its arguments", kind)
    before = look(f, logic)
    if hasattr(f, "operands"):
        got = f.operands
        if isinstance(got, list):
            got.reverse()
            del got[1:]
        require(look(f, logic) == before, "changing the operands that are returned changes the formula {!r}", f)
        first, second = list(f.operands), list(f.operands)
        require(first == second, "the operands of {!r} are {} and then {}", f, first, second)
    return len(fs) >= 2, [kind, logic]


def read(content):
    """All of a flat proof."""
    out = []
    for x in content:
        if isinstance(x, list):
            out.append(("list", id(x), tuple(read(x))))
        elif isinstance(x, tuple):
            out.append(("tuple", id(x), repr(x)))
        else:
            out.append((type(x).__name__, id(x) if not isinstance(x, int) else x, repr(x), str(x)))
    return out


def proofs(case):
    logic, lines = case["logic"], case["proof"]
    flat = nd.flat(lines, logic)
    before = read(flat)
    first = nd.ND.check(nd.ND.Proof(flat))
    require(read(flat) == before, "making and checking a proof changes its lines: {}", dumps(lines))
    proof = nd.ND.Proof(flat)
    printed = str(proof)
    second = nd.ND.check(proof)
    third = nd.ND.check(proof)
    require(first is second and second is third, "checking {} gives {}, {}, {}", dumps(lines), first, second, third)
    require(str(proof) == printed, "checking changes the proof that is printed: {}", dumps(lines))
    require(read(flat) == before, "checking or printing a proof changes its lines: {}", dumps(lines))
    require(str(nd.ND.Proof(flat)) == printed, "printing {} twice gives two texts", dumps(lines))
    boxes = any(line[0] == "b" for line in lines)
    return boxes, ["accepted" if first else "rejected"] + ["with boxes"] * boxes


INDEX = st.integers(0, 11)
KINDS = [
    "not", "~", "and", "or", "implies", "iff", "&", "|", ">>", "unary", "binary", "copy", "pickle", "compare", "print",
    "evaluate", "mixed", "parse", "shorthand",
]


@st.composite
def sessions(draw):
    formulas = []
    main = draw(st.sampled_from(gen.LOGICS + ["re", "fol"]))
    for _ in range(draw(st.integers(2, 4))):
        logic = main if draw(st.integers(0, 3)) else draw(st.sampled_from(gen.LOGICS + ["re", "fol"]))
        formulas.append({"logic": logic, "spec": one(draw, logic, draw(st.integers(0, 2)))})
    ops = draw(st.lists(st.tuples(st.sampled_from(KINDS), INDEX, INDEX, INDEX).map(list), min_size=1, max_size=10))
    return {"formulas": formulas, "ops": ops}


@st.composite
def lists(draw):
    return {
        "kind": draw(st.sampled_from(["function", "predicate", "call", "quantifier"])),
        "terms": draw(st.lists(fol_term(1), min_size=0, max_size=3)),
        "edit": draw(st.sampled_from(["append", "clear", "set", "reverse"])),
    }


@st.composite
def shared(draw):
    return {"names": draw(st.lists(st.sampled_from("PQRA"), min_size=1, max_size=3)), "terms": draw(st.lists(fol_term(1), max_size=3))}


@st.composite
def nary(draw):
    logic = draw(st.sampled_from(gen.LOGICS + ["fol"]))
    n = draw(st.integers(2, 5))
    specs = [one(draw, logic, draw(st.integers(0, 1))) for _ in range(n)]
    return {"logic": logic, "kind": draw(st.sampled_from(gen.BOOL)), "specs": specs}


@st.composite
def repeated(draw):
    """A proof in which some lines occur twice."""
    case = dict(draw(st.one_of(ndgen.correct("fol"), ndgen.correct("pl"), ndgen.mutated("fol"))))
    lines = list(case["proof"])
    for _ in range(draw(st.integers(1, 2))):
        if lines:
            lines.insert(draw(st.integers(0, len(lines))), lines[draw(st.integers(0, len(lines) - 1))])
    case["proof"] = lines
    return case


PARTS = [
    Part("operations", operations, sessions(), quick=5000, thorough=80000),
    Part("arguments", arguments, lists(), quick=1500, thorough=20000),
    Part("defaults", defaults, shared(), quick=200, thorough=2000),
    Part("elements", elements, nary(), quick=2000, thorough=40000),
    Part("proofs", proofs, st.one_of(ndgen.correct("fol"), ndgen.mutated("pl"), ndgen.mutated("fol")), quick=2000, thorough=40000),
    Part("repeated lines", proofs, repeated(), quick=500, thorough=10000),
]
