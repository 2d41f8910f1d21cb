"""C09: what was built before does not matter, and the registry keeps one entry per formula."""
import json
import pickle
import sys
import threading

from hypothesis import strategies as st

from .. import gen, text
from ..core import Violation, dumps, interpreter, require
from ..engine import Part
from ..folgen import fol_formula
from ..spec import BOOLEAN, LOGIC, LOGIC_NAME, PARSE, base, build, cancels, children, freeze, key, norm, pl, rebuild, sublogic, walk
from .c08 import edit, flip, shuffle

from lark.exceptions import UnexpectedInput
from pylogics_modalities.exceptions import PylogicsError
from pylogics_modalities.utils.to_string import to_string

ID = "C09"
RULE = (
    "a case is a history: a list of operations (build, parse, combine, negate, print, pickle, fail to build or to parse, "
    "reset the registry) over related formulae of several logics, run in one interpreter; each result is compared "
    "with what the same formula gives in a fresh registry, and the registry is inspected after each operation; "
    "non-trivial: the history has at least three operations, two of which make formulae"
)
ASSUMPTIONS = ["in the schedules of threads, the threads do not reset the registry"]


def string(f, logic):
    """The string of the formula, in the logics that have one."""
    return to_string(f) if logic in PARSE else str(f) if logic == "fol" else ""


def reference(spec, logic):
    """What building in a fresh registry gives."""
    base.reset_cache()
    f = build(spec, logic)
    return walk(f, logic), hash(f), string(f, logic)


def entries():
    context = base.get_cache_context()
    for logic, table in context.items():
        for f in table:
            yield logic, f


def inspect(step):
    """One entry per formula, under its logic."""
    seen = {}
    for logic, f in entries():
        require(f.logic == logic, "after {}: {!r} is registered under {}", step, f, logic)
        k = (logic, key(walk(f, LOGIC_NAME[logic])))
        require(k not in seen, "after {}: {!r} is registered twice, also as {!r}", step, f, seen.get(k))
        seen[k] = f
    return len(seen)


def registered(f, step):
    context = base.get_cache_context()
    table = context.get(f.logic, {})
    require(f in table, "after {}: {!r} is not registered", step, f)


def history(case):
    specs = [(x["logic"], x["spec"]) for x in case["formulas"]]
    expected = [reference(s, lg) for lg, s in specs]
    base.reset_cache()
    require(sum(1 for _ in entries()) == 0, "the registry is not empty after a reset")
    pool = []  # (formula, logic, spec read at first)
    made = 0
    labels = []
    for n, op in enumerate(case["ops"]):
        step = "operation %d (%s) of %s" % (n, op, dumps(case["ops"]))
        kind = op[0]
        labels.append(kind)
        if kind in ("build", "parse"):
            i = op[1] % len(specs)
            logic, spec = specs[i]
            if kind == "build" or logic not in PARSE:
                f = build(spec, logic)
            else:
                f = PARSE[logic](text.render(spec, logic, text.plain))
            result = walk(f, logic)
            if kind == "build":
                require(
                    freeze(result) == freeze(expected[i][0]),
                    "{}\n  {} {}\n  is built as {}\n  and, in a fresh registry, as {}", step, logic, dumps(spec),
                    dumps(result), dumps(expected[i][0]),
                )
                s = string(f, logic)
                require(s == expected[i][2], "{}\n  prints {!r}\n  and, in a fresh registry, {!r}", step, s, expected[i][2])
            require(key(result) == key(norm(spec)), "{}\n  {} is read as {}", step, dumps(spec), dumps(result))
            require(hash(f) == expected[i][1], "{}\n  the hash of {!r} depends on the history", step, f)
            registered(f, step)
            pool.append((f, logic, result))
            made += 1
        elif kind == "reset":
            base.reset_cache()
            require(sum(1 for _ in entries()) == 0, "the registry is not empty after {}", step)
        elif kind == "fail":
            fail(op[1], step)
        elif pool:
            f, logic, spec = pool[op[1] % len(pool)]
            if kind == "not" and logic != "re":
                g, s = base.Not(f), ["not", spec]
            elif kind == "pickle":
                g, s = pickle.loads(pickle.dumps(f)), spec
            elif kind == "print":
                if logic in PARSE:
                    to_string(f)
                str(f), repr(f), hash(f)
                g, s = f, spec
            elif kind in BOOLEAN and logic != "re":
                other = [x for x in pool if x[1] == logic]
                h, _, t = other[op[2] % len(other)]
                g, s = BOOLEAN[kind](f, h), [kind, spec, t]
            else:
                continue
            result = walk(g, logic)
            require(key(result) == key(norm(s)), "{}\n  {} gives {}", step, dumps(s), dumps(result))
            if kind != "pickle" and kind != "print" and result[0] not in ("tt", "ff"):
                made += 1
            pool.append((g, logic, result))
        inspect(step)
        for f, logic, spec in pool:
            require(freeze(walk(f, logic)) == freeze(spec), "{}\n  changed {} into {!r}", step, dumps(spec), f)
    # formulae made at different times are equal iff they are the same formula
    for f, l1, s in pool[-8:]:
        for g, l2, t in pool[:8]:
            same = l1 == l2 and key(s) == key(t)
            require((f == g) is same, "{!r} == {!r} is {} after {}", f, g, f == g, dumps(case["ops"]))
            require(not same or hash(f) == hash(g), "{!r} and {!r} are equal, but not their hashes", f, g)
    return made >= 2 and len(case["ops"]) >= 3, sorted(set(labels))


def fail(which, step):
    """Operations that have to fail, without consequences on the following ones."""
    a = pl.Atomic("a")
    try:
        if which % 5 == 0:
            PARSE["pl"]("a & (b |")
        elif which % 5 == 1:
            PARSE["ltl"]("a U U b")
        elif which % 5 == 2:
            PARSE["ldl"]("<a; >tt")
        elif which % 5 == 3:
            base.And(a, build(["always", ["atom", "a"]], "ltl"))
        else:
            pl.Atomic("Not A Name")
    except (UnexpectedInput, PylogicsError, ValueError):
        return
    raise Violation("after %s: an ill-formed formula is accepted" % step)


def registry(case):
    """Every formula that the constructors return, and all that it is made of, is registered once."""
    base.reset_cache()
    made = []

    def make(spec, logic):
        # build bottom-up, so that each node is a formula that some constructor returned
        kids = children(spec)
        for i, c in enumerate(kids):
            make(c, sublogic(spec[0], logic, i))
        made.append((build(spec, logic), logic, spec))

    for x in case["formulas"]:
        make(x["spec"], x["logic"])
    before = inspect("building " + dumps(case["formulas"]))
    for f, _, spec in made:
        registered(f, "building " + dumps(spec))
    for x in case["formulas"]:
        make(x["spec"], x["logic"])
    after = inspect("building twice " + dumps(case["formulas"]))
    require(before == after, "building again the same formulae adds {} entries: {}", after - before, dumps(case["formulas"]))
    return len(made) >= 3, ["formulae %d" % len(case["formulas"])]


def threads(case):
    """Formulae are built concurrently."""
    specs = [(x["logic"], x["spec"]) for x in case["formulas"]]
    expected = [reference(s, lg) for lg, s in specs]
    base.reset_cache()
    results = [None] * 4
    start = threading.Barrier(4)

    def run(k):
        out = []
        try:
            start.wait()
            for j in range(len(specs)):
                i = (j * (2 * (k % 2) - 1) + k) % len(specs)
                logic, spec = specs[i]
                f = build(spec, logic)
                g = f
                if logic in PARSE and k % 2:
                    g = PARSE[logic](text.render(spec, logic, text.plain))
                out.append((i, f, g))
            results[k] = out
        except Exception as e:  # noqa
            results[k] = e

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    for r in results:
        require(isinstance(r, list), "a thread failed while building {}: {!r}", dumps(specs), r)
        for i, f, g in r:
            logic, spec = specs[i]
            require(
                freeze(walk(f, logic)) == freeze(expected[i][0]),
                "among threads, {} is built as {!r}", dumps(spec), f,
            )
            require(g == f and hash(g) == hash(f), "among threads, {} is built as {!r} and parsed as {!r}", dumps(spec), f, g)
            registered(f, "building among threads")
    inspect("building among threads")
    return True, ["formulae %d" % len(specs)]


def long(case):
    """After a long history, the registry still contains everything."""
    base.reset_cache()
    logic, n = case["logic"], case["n"]
    made = []
    for i in range(n):
        a = ["atom", "%s%d" % (case["prefix"], i)]
        kind = (i * case["stride"]) % 4
        spec = [a, ["not", a], ["or", a, ["atom", "zz"]], ["implies", ["atom", "zz"], a]][kind]
        made.append((build(spec, logic), spec))
        if i == n // 2:
            middle = hash(made[0][0]), string(made[0][0], logic)
    count = inspect("building %d formulae" % n)
    for f, spec in made:
        registered(f, "building %d formulae" % n)
        require(walk(f, logic) == spec, "{} is built as {!r}", dumps(spec), f)
    require((hash(made[0][0]), string(made[0][0], logic)) == middle, "{!r} changes in a long history", made[0][0])
    for f, spec in made:
        require(build(spec, logic) == f, "{} is not built again as {!r}", dumps(spec), f)
    require(inspect("building again %d formulae" % n) == count, "building again {} formulae adds entries", n)
    return True, [logic]


def summary(x):
    """What is seen of a formula: as built and printed, and as parsed and printed."""
    spec, logic = x["spec"], x["logic"]
    f = build(spec, logic)
    out = [walk(f, logic), str(f) if logic in ("pl", "ltl", "pltl", "fol") else "", string(f, logic)]
    if logic in PARSE:
        g = PARSE[logic](text.render(spec, logic, text.plain))
        out += [walk(g, logic), string(g, logic)]
    return out


def summaries(items, order):
    out = [None] * len(items)
    for i in order:
        out[i] = summary(items[i])
    return out


def interpreters(case):
    """The same formulae, in another interpreter, built in another order."""
    items = [x for x in case["formulas"] if not cancels(x["spec"])]
    n = len(items)
    there = sorted(range(n), key=lambda i: -i if case["stride"] % 2 else (i + 1) * case["stride"] * 2654435761 % 4294967291)
    base.reset_cache()
    mine = summaries(items, range(n))
    job = {"items": items, "order": there}
    answer = interpreter("c09", job, case["hashseed"])
    for x, one, two in zip(items, mine, answer):
        if one != two:
            raise Violation("%s gives\n  %s\n  and, in another interpreter, among the same formulae in another order,\n  %s" % (dumps(x), dumps(one), dumps(two)))
    return n > 2, ["%d formulae" % (n // 10 * 10)]


def other_side():
    """The other interpreter of 'interpreters'."""
    job = json.load(sys.stdin)
    print(json.dumps(summaries(job["items"], job["order"])))


def identity(case):
    """Hash consing: 'the same formula is not repeated across the interpreter'."""
    base.reset_cache()
    f, g = build(case["spec"], case["logic"]), build(case["spec"], case["logic"])
    require(f is g, "{} built twice gives two objects", dumps(case["spec"]))
    return True, []


def one(draw, logic, fuel):
    if logic == "fol":
        return draw(fol_formula(fuel))
    names = draw(st.sampled_from([gen.FEW] * 6 + gen.FAMILIES))
    maker = gen.Maker(draw, "ldl" if logic == "re" else logic, exotic=12, names=names, wide=False)
    return maker.formula(logic, fuel)


@st.composite
def related(draw, low=1, high=4):
    """Some related formulae: edited, shuffled, or read in another logic."""
    logic = draw(st.sampled_from(gen.LOGICS + ["re", "fol"]))
    formulas = [{"logic": logic, "spec": one(draw, logic, draw(st.integers(0, 2)))}]
    for _ in range(draw(st.integers(low, high))):
        x = draw(st.sampled_from(formulas))
        kind = draw(st.sampled_from(["shuffle", "edit", "edit", "new", "other"]))
        spec, logic = x["spec"], x["logic"]
        if kind == "shuffle":
            spec = flip(spec) if draw(st.booleans()) else shuffle(draw, spec)
        elif kind == "edit":
            spec = edit(draw, logic, spec)
        elif kind == "other" and logic in ("pl", "ltl", "pltl"):
            logic = draw(st.sampled_from(["pl", "ltl", "pltl"]))
            spec = one(draw, "pl", 1)
            formulas.append({"logic": draw(st.sampled_from(["pl", "ltl", "pltl"])), "spec": spec})
        else:
            logic = draw(st.sampled_from(gen.LOGICS + ["re", "fol"]))
            spec = one(draw, logic, 1)
        formulas.append({"logic": logic, "spec": spec})
    return formulas


INDEX = st.integers(0, 11)
OPERATION = st.one_of(
    st.tuples(st.sampled_from(["build", "parse"]), INDEX),
    st.tuples(st.sampled_from(["build", "parse"]), INDEX),
    st.tuples(st.sampled_from(["not", "print", "pickle", "fail"]), INDEX),
    st.tuples(st.sampled_from(gen.BOOL), INDEX, INDEX),
    st.just(("reset",)),
).map(list)


@st.composite
def histories(draw):
    return {"formulas": draw(related()), "ops": draw(st.lists(OPERATION, min_size=1, max_size=12))}


@st.composite
def groups(draw):
    return {"formulas": draw(related())}


@st.composite
def batches(draw):
    formulas = []
    for _ in range(draw(st.integers(3, 10))):
        formulas += draw(related(2, 5))
    formulas += [{"logic": x["logic"], "spec": flip(x["spec"])} for x in formulas]
    return {"formulas": formulas, "stride": draw(st.integers(2, 1008)), "hashseed": draw(st.integers(0, 2 ** 32 - 1))}


def orders(tier):
    """Every operator over a few operands, in both orders, and in two interpreters."""
    for logic in ("pl", "ltl", "pltl", "ldl", "re", "fol"):
        a, b, c = ["atom", "a"], ["atom", "b"], ["not", ["atom", "c"]]
        if logic == "fol":
            a, b, c = ["pred", "A", []], ["pred", "P", [["var", "x"]]], ["not", ["pred", "P", [["const", "a"]]]]
        elif logic == "re":
            a, b, c = ["prop", a], ["prop", b], ["prop", c]
        elif logic == "ldl":
            a, b, c = [["dia", ["prop", x], ["tt"]] for x in (a, b, c)]
        operators = ["seq", "union"] if logic == "re" else gen.BOOL + gen.BINARY.get(logic, [])
        specs = [[op] + list(kids) for op in operators for kids in ((a, b), (a, b, c), (c, a), ([operators[0], a, c], b))]
        specs += [[operators[-1], s, a] for s in specs if s[0] != operators[-1]]
        specs += [["star", s] for s in specs[:6]] if logic == "re" else [["not", s] for s in specs[:6]]
        specs += [[op, s] for op in gen.UNARY.get(logic, []) for s in specs[:4]]
        items = [{"logic": logic, "spec": s} for s in specs + [flip(s) for s in specs]]
        for stride in (1, 2, 6):
            yield {"formulas": items, "stride": stride, "hashseed": stride}


def large(tier):
    """Thousands of formulae of a logic."""
    for logic in ("pl", "ltl", "pltl"):
        for n in (3000,) if tier == "quick" else (3000, 30000):
            yield {"logic": logic, "n": n, "prefix": "a", "stride": 1}


PARTS = [
    Part("large", long, cases=large),
    Part("orders", interpreters, cases=orders),
    Part("interpreters", interpreters, batches(), quick=64, thorough=600),
    Part("history", history, histories(), quick=6000, thorough=80000),
    Part("registry", registry, groups(), quick=5000, thorough=60000),
    Part(
        "long", long,
        st.fixed_dictionaries({
            "logic": st.sampled_from(["pl", "ltl", "pltl"]), "n": st.integers(20, 400), "prefix": st.sampled_from("abx"),
            "stride": st.integers(0, 3),
        }),
        quick=40, thorough=600,
    ),
    Part("threads", threads, groups(), quick=480, thorough=6000),
]
FINDING_PARTS = [Part("identity", identity)]
