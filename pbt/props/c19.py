"""C19: the shorthands denote the positions they are named after."""
import operator
from functools import reduce

from hypothesis import strategies as st

from .. import gen, sem, text
from ..core import dumps, require
from ..engine import Part
from ..spec import PARSE, build, ldl, ltl, ops, pltl, walk

ID = "C19"
RULE = (
    "a case is a formula of LTL, PLTL or LDL with shorthands (last, end, start, and implications written as f >> g), "
    "parsed from text or built with the constructors Last, End, Start, and a few finite traces; the shorthands are "
    "evaluated as primitive operators in the reference, and by their expansion in the formula of the library; "
    "non-trivial: the formula contains a shorthand under another operator"
)
ASSUMPTIONS = ["traces are not empty", "in LDL, 'end' holds after the last instant, as '[true]ff' does"]


def constructor(logic, word):
    return {
        ("ltl", "last"): ltl.Last, ("pltl", "start"): pltl.Start, ("ldl", "last"): ldl.Last, ("ldl", "end"): ldl.End,
    }[(logic, word)]


def check(case):
    logic, spec = case["logic"], case["spec"]
    f = PARSE[logic](case["text"]) if "text" in case else build(spec, logic)
    result = walk(f, logic)
    for trace in case["traces"]:
        ev = sem.Trace(trace)
        expected, got = ev.table(spec, logic), ev.table(result, logic)
        require(
            expected == got, "{}\n  became {}\n  on the trace {} the values are {}, expected {}",
            case.get("text", dumps(spec)), dumps(result), trace, got, expected,
        )
    used = ops(spec) & {"last", "end", "start"}
    return bool(used) and spec[0] not in used, [logic] + sorted(used)


def basic(case):
    logic, word, trace = case["logic"], case["word"], case["trace"]
    ev = sem.Trace(trace)
    for how, f in (("the parser", PARSE[logic](word)), ("the constructor", constructor(logic, word)())):
        got = [i for i in ev.positions(logic) if ev.value(walk(f, logic), logic, i)]
        expected = {"last": [len(trace) - 1], "start": [0], "end": [len(trace)]}[word]
        require(got == expected, "'{}' of {} ({!r}) holds at {} of {}", word, how, f, got, trace)
    return True, [logic, word, "length %d" % len(trace)]


def arrows(case):
    """f >> g is an implication."""
    logic, operands = case["logic"], case["operands"]
    built = [build(x, logic) for x in operands]
    f = reduce(lambda acc, x: x >> acc, reversed(built))
    spec = ["implies"] + operands
    result = walk(f, logic)
    for trace in case["traces"]:
        ev = sem.Trace(trace)
        expected, got = ev.table(spec, logic), ev.table(result, logic)
        require(
            expected == got, "{}\n  joined by >> are {}\n  on the trace {} the values are {}, expected {}", dumps(operands),
            dumps(result), trace, got, expected,
        )
    return True, [logic, "arity %d" % len(operands)]


@st.composite
def cases(draw):
    logic = draw(st.sampled_from(["ltl", "pltl", "ldl"]))
    words = {"ltl": ["last"], "pltl": ["start"], "ldl": ["last", "end"]}[logic]
    maker = gen.Maker(draw, logic, shorthands=True, exotic=0, names=gen.FEW, repeat=draw(st.sampled_from([0, 6])))
    spec = [draw(st.sampled_from(words))]
    for _ in range(draw(st.integers(0, 4))):
        kinds = ["not"] + gen.BOOL + gen.UNARY[logic] + gen.BINARY[logic] + (["dia", "box"] if logic == "ldl" else [])
        kind = draw(st.sampled_from(kinds))
        if kind == "not" or kind in gen.UNARY[logic]:
            spec = [kind, spec]
        elif kind in ("dia", "box"):
            if draw(st.booleans()):
                spec = [kind, ["test", spec], maker.formula("ldl", 1)]
            else:
                spec = [kind, maker.regex(1), spec]
        else:
            other = maker.formula(logic, 1)
            spec = [kind, spec, other] if draw(st.booleans()) else [kind, other, spec]
    case = {"logic": logic, "spec": spec, "traces": draw(st.lists(gen.trace(max_size=5), min_size=1, max_size=3))}
    if draw(st.booleans()):
        case["text"] = text.render(spec, logic, gen.picker(draw))
    return case


@st.composite
def arrow_cases(draw):
    logic = draw(st.sampled_from(gen.LOGICS))
    maker = gen.Maker(draw, logic, exotic=0, names=gen.FEW)
    n = draw(st.sampled_from([2, 2, 2, 3, 4]))
    traces = st.lists(gen.trace(max_size=4), min_size=1, max_size=3)
    return {"logic": logic, "operands": [maker.formula(logic, 1) for _ in range(n)], "traces": draw(traces)}


def basics(_tier):
    for logic, word in (("ltl", "last"), ("pltl", "start"), ("ldl", "last"), ("ldl", "end")):
        for n in range(1, 9):
            for state in ([], ["a"], ["last", "end", "start"]):
                yield {"logic": logic, "word": word, "trace": [state] * n}


PARTS = [
    Part("basic", basic, cases=basics),
    Part("random", check, cases(), quick=10000, thorough=250000),
    Part("arrows", arrows, arrow_cases(), quick=5000, thorough=100000),
]
