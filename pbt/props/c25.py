"""C25: nothing takes exponential work."""
import copy
import pickle
import sys

from hypothesis import strategies as st

from .. import gen, nd, text
from ..core import dumps, require
from ..engine import Part
from ..folgen import fol_formula
from ..spec import ATOMIC, PARSE, atoms, base, build, children, depth, term

from lark.exceptions import UnexpectedInput
from pylogics_modalities.exceptions import PylogicsError
from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.utils.to_string import to_string

ID = "C25"
RULE = (
    "a case is a deep, or wide, or large formula (text, term, proof), or a history, with the operations of the library on "
    "it; the oracle counts the calls of Python functions, and stops an operation as soon as there are more than 20000 "
    "plus 100 times the square of the size (20 times, for the length of a text); non-trivial: the formula has at least 8 "
    "levels, or there are at least 30 nodes, characters, or formulae built before"
)
ASSUMPTIONS = ["work is measured in calls of functions; single calls (as of regular expressions) in seconds of CPU"]
FLOOR = 20000


class Over(BaseException):
    pass


def work(fn, limit):
    """What the function gives, and the calls that it makes; None for the calls if they are more than the limit."""
    calls = 0

    def profile(_frame, event, _arg):
        nonlocal calls
        if event == "call":
            calls += 1
            if calls > limit:
                raise Over

    sys.setrecursionlimit(50000)
    sys.setprofile(profile)
    try:
        result = fn()
    except Over:
        return None, None
    finally:
        sys.setprofile(None)
    return result, calls


class Meter:
    """Runs operations within the limit for a size."""

    def __init__(self, n, what, factor=100):
        self.limit = FLOOR + factor * n ** 2
        self.n, self.what, self.worst = n, what, 0.0

    def __call__(self, name, fn):
        result, calls = work(fn, self.limit)
        require(calls is not None, "{} of a formula of size {} takes more than {} calls: {}", name, self.n, self.limit, self.what)
        self.worst = max(self.worst, calls / self.limit)
        return result


def refused(fn, error=(UnexpectedInput, PylogicsError)):
    try:
        fn()
    except error:
        return True
    return False


def operations(m, spec, logic):
    """The operations on a formula."""
    f = m("construction", lambda: build(spec, logic))
    g = m("second construction", lambda: build(spec, logic))
    require(m("comparison", lambda: f == g) is True, "two constructions of {} are not equal", m.what)
    m("hash", lambda: hash(f))
    m("string", lambda: str(f))
    m("representation", lambda: repr(f))
    h = m("copy", lambda: copy.deepcopy(f))
    m("hash of the copy", lambda: hash(h))
    h = m("pickling", lambda: pickle.loads(pickle.dumps(f)))
    m("comparison with the copy", lambda: (f == h, h == f, f != h, hash(h)))
    if logic != "re":
        m("negation", lambda: base.Not(f))
        m("negation", lambda: ~~f)
        m("conjunction", lambda: f & g & base.Not(f))
        m("disjunction", lambda: base.Or(f, base.Not(g), f))
        m("implication", lambda: f >> (g >> f))
        m("equivalence", lambda: base.Equivalence(f, g, base.Not(f)))
    if logic in PARSE:
        s = m("printing", lambda: to_string(f))
        require(len(s) <= 200 + 20 * m.n * (8 + max(map(len, atoms(spec)), default=0)), "the string of {} has {} characters", m.what, len(s))
        m("parsing", lambda: PARSE[logic](s))
        for bad in (s + ")", "(" + s, s + " " + s, s + " &", s[:-1] + "$"):
            m("refusal", lambda: refused(lambda: PARSE[logic](bad)))
    if logic == "pl":
        names = sorted(set(atoms(spec)))
        for i in (names, names[::2], []):
            m("evaluation", lambda: evaluate_pl(f, set(i)))
            m("evaluation", lambda: evaluate_pl(f, {x: x in i for x in names}))
    m("registry", base.get_cache_context)
    return f


def formula(case):
    spec, logic = case["spec"], case["logic"]
    n = weight(spec)
    m = Meter(n, dumps(spec)[:2000])
    operations(m, spec, logic)
    return n >= 30 or depth(spec) >= 8, [logic, "worst %.0e of the limit" % m.worst]


def weight(spec):
    """Nodes of a formula, with its terms."""
    if spec[0] == "pred":
        return 1 + sum(map(term_weight, spec[2]))
    return 1 + sum(map(weight, children(spec)))


def term_weight(t):
    return 1 + (sum(map(term_weight, t[2])) if t[0] == "fun" else 0)


# -- towers ---------------------------------------------------------------------------


def operators(logic):
    if logic == "re":
        return ["seq", "union", "star", "test dia", "test box"]
    out = ["not"] + gen.BOOL
    if logic == "fol":
        return out + ["forall", "exists"]
    out += gen.UNARY[logic] + gen.BINARY[logic]
    if logic == "ldl":
        out += ["dia", "box", "dia test", "box star test", "dia prop"]
    return out


def leaf(logic, i):
    a = ["atom", "abc"[i % 3]]
    if logic == "re":
        return ["prop", a]
    if logic == "ldl":
        return ["dia", ["prop", a], ["tt"]]
    if logic == "fol":
        return ["pred", "P", [["var", "xyz"[i % 3]]]]
    return a


def tower(logic, names, levels, place):
    """A tower of operators, one over the other; the operand that grows is the one at 'place'."""
    spec = leaf(logic, 0)
    for i in range(levels):
        op, other = names[i % len(names)], leaf(logic, i + 1)
        if op == "not" or op in gen.UNARY.get(logic, ()) or op == "star":
            spec = [op, spec]
        elif op in ("dia", "box"):
            spec = [op, leaf("re", i), spec]
        elif op == "dia test":
            spec = ["dia", ["test", spec], ["tt"]]
        elif op == "box star test":
            spec = ["box", ["star", ["seq", ["test", spec], leaf("re", i)]], ["ff"]]
        elif op == "dia prop":
            spec = ["dia", ["prop", ["not", ["and", ["atom", "a"], ["not", ["atom", "b"]]]]], spec]
        elif op in ("test dia", "test box"):
            spec = ["test", [op[5:], spec, ["tt"]]]
        elif op in ("forall", "exists"):
            spec = [op, "xyz"[i % 3], spec]
        elif place == 2:
            spec = [op, other, spec, leaf(logic, i + 2)]
        elif place == 3:
            # on both sides, which shares the operand
            spec = [op, spec, ["not", other] if logic != "re" else other]
        else:
            spec = [op, spec, other] if place == 0 else [op, other, spec]
    return spec


def towers(tier):
    levels = 40
    for logic in ("pl", "ltl", "pltl", "ldl", "fol", "re"):
        some = operators(logic)
        for i, x in enumerate(some):
            for j, y in enumerate(some):
                names = [x] if x == y else [x, y]
                places = [0, 1, 2, 3] if x == y or tier == "thorough" else [(i + j) % 4]
                for place in places:
                    yield {"logic": logic, "spec": tower(logic, names, levels, place)}


def prefix_towers(tier):
    """Several operators that are not repeated."""
    for logic in ("pl", "ltl", "pltl", "ldl", "fol", "re"):
        some = operators(logic)
        for k in range(len(some)):
            for place in (0, 1, 2, 3):
                yield {"logic": logic, "spec": tower(logic, some[k:] + some[:k], 36, place)}


# -- wide formulae ---------------------------------------------------------------------


def wide_leaf(logic, i):
    a = ["atom", "a%d" % i]
    if logic == "re":
        return ["prop", a]
    if logic == "ldl":
        return [["dia", "box"][i % 2], ["prop", a], ["tt"]]
    if logic == "fol":
        return ["pred", "P", [["const", "c%d" % i]]]
    return a


def wide(tier):
    for logic in ("pl", "ltl", "pltl", "ldl", "fol", "re"):
        some = {"re": ["seq", "union"]}.get(logic) or gen.BOOL + gen.BINARY.get(logic, [])
        for op in some:
            for n in (60, 150) + ((400,) if tier == "thorough" else ()):
                yield {"logic": logic, "spec": [op] + [wide_leaf(logic, i) for i in range(n)]}
                yield {"logic": logic, "spec": [op] + [wide_leaf(logic, i % (n // 2)) for i in range(n)]}
                if logic != "re":
                    yield {"logic": logic, "spec": [op] + [[["not", "or"][i % 2], wide_leaf(logic, i)] + [wide_leaf(logic, 1 + i)] * (i % 2) for i in range(n // 2)]}
                    yield {"logic": logic, "spec": ["not", [op] + [["not", wide_leaf(logic, i)] for i in range(n // 2)]]}


@st.composite
def trees(draw):
    """A full binary tree, with an operator for each level."""
    logic = draw(st.sampled_from(["pl", "ltl", "pltl", "ldl", "fol", "re"]))
    levels = draw(st.integers(3, 6))
    some = ["seq", "union"] if logic == "re" else gen.BOOL + gen.BINARY.get(logic, [])
    chosen = [draw(st.sampled_from(some)) for _ in range(levels)]
    over = [draw(st.sampled_from([None] + (["star"] if logic == "re" else ["not"] + gen.UNARY.get(logic, [])))) for _ in range(levels)]
    n = 0

    def go(i):
        nonlocal n
        if i == levels:
            n += 1
            return wide_leaf(logic, n)
        x = [chosen[i], go(i + 1), go(i + 1)]
        return [over[i], x] if over[i] else x

    return {"logic": logic, "spec": go(0)}


@st.composite
def chains(draw):
    logic = draw(st.sampled_from(gen.LOGICS))
    return {"logic": logic, "spec": draw(gen.chain(logic, exotic=0))}


@st.composite
def quantified(draw):
    return {"logic": "fol", "spec": draw(fol_formula(draw(st.integers(2, 5))))}


# -- texts -----------------------------------------------------------------------------


def long_names(n):
    return [
        "a" * n * 20, "a-" * n + "a", "a-" * n, "a" + "-" * n, "_" * n * 10, '"' + "a " * n + '"', '"' + "a" * n * 10, '"' * n, "true" * n, '"' + "(" * n + '"', "a_" * n + "-",
        "A" * n, "a" * n + "$", '"a' * n, "1" * n, "a" * n + "é", "a b " * n, "last" * n, "tt" * n, "-a" * n, '"\\' * n,
    ]


def names(tier):
    """Long names, given to the constructors."""
    for n in (3, 30, 60, 100):
        for name in long_names(n):
            for end in ("", "-", "--", "$", '"', " ", "\n", "-a", "é"):
                yield {"name": name + end}


def named(case):
    s = case["name"]
    m = Meter(len(s), dumps(s)[:2000], factor=20)
    made = []
    for cls in list(ATOMIC.values()) + [base.AtomName]:
        made.append(not m("construction", lambda: refused(lambda: cls(s), ValueError)))
    require(len(set(made)) == 1, "{!r} is a name only for some classes", s)
    return len(s) >= 30, ["name" if made[0] else "refused"]


def texts(tier):
    """Long texts, and whether they are formulae."""
    for n in (5, 100) if tier == "quick" else (5, 12, 30, 60, 100, 200):
        for logic in gen.LOGICS:
            a = "<a>tt" if logic == "ldl" else "a"
            yield {"logic": logic, "text": "(" * n + a + ")" * n}
            yield {"logic": logic, "text": "(" * n + a + ")" * (n - 1)}
            yield {"logic": logic, "text": "(" * n + a + " & " + a + ")" * n + " | " + a}
            yield {"logic": logic, "text": "(" * n}
            yield {"logic": logic, "text": "!" * n + a}
            yield {"logic": logic, "text": "~" * n + "!" * n + a}
            yield {"logic": logic, "text": "!" * n}
            yield {"logic": logic, "text": "!(" * n + a + ")" * n}
            for op in ("&", "|", "->", "<->", "&&", "||", ">>"):
                yield {"logic": logic, "text": (" " + op + " ").join([a] * n)}
                yield {"logic": logic, "text": op.join([a] * n)}
                yield {"logic": logic, "text": (" " + op + " ").join([a] * n) + " " + op}
                yield {"logic": logic, "text": (a + " " + op + " (") * n + a + ")" * n}
                yield {"logic": logic, "text": "(" * n + a + (" " + op + " " + a + ")") * n}
                yield {"logic": logic, "text": (" " + op) * n}
                yield {"logic": logic, "text": "(" * n + a + (" " + op + " " + a + ")") * (n - 1)}
            for blank in (" ", "\t", "\n", " \n", "\r\n"):
                yield {"logic": logic, "text": blank * n * 10 + a + blank * n * 10}
                yield {"logic": logic, "text": blank * n * 10}
                yield {"logic": logic, "text": (a + blank * n) * 3}
            for name in long_names(n):
                name = {"ldl": "<%s>tt"}.get(logic, "%s") % name
                yield {"logic": logic, "text": name}
                yield {"logic": logic, "text": "(%s) & %s" % (name, name)}
        for op in text.SYMBOL["ltl"].values():
            yield {"logic": "ltl", "text": (op + " ") * n + "a"}
            yield {"logic": "ltl", "text": (op + "(") * n + "a" + ")" * n}
            yield {"logic": "ltl", "text": (op + " ") * n}
            yield {"logic": "ltl", "text": ("a " + op + " ") * n + "a"}
            yield {"logic": "ltl", "text": ("a " + op + " (") * n + "a" + ")" * n}
        for op in text.SYMBOL["pltl"].values():
            yield {"logic": "pltl", "text": (op + " ") * n + "a"}
            yield {"logic": "pltl", "text": (op + "(") * n + "a" + ")" * n}
            yield {"logic": "pltl", "text": (op + " ") * n}
            yield {"logic": "pltl", "text": ("a " + op + " ") * n + "a"}
            yield {"logic": "pltl", "text": ("a " + op + " (") * n + "a" + ")" * n}
        for one, two in ("<>", "[]"):
            for end in ("tt", "ff", "", "<a>"):
                yield {"logic": "ldl", "text": (one + "a" + two) * n + end}
                yield {"logic": "ldl", "text": (one + "a" + two + "(") * n + end + ")" * n}
                yield {"logic": "ldl", "text": (one) * n + "tt" + ("?" + two + "tt") * n + end}
                yield {"logic": "ldl", "text": (one) * n + end}
                yield {"logic": "ldl", "text": one + "(" * n + "a" + ")*" * n + two + end}
                yield {"logic": "ldl", "text": one + "(" * n + "a" + ")" * n + two + end}
                yield {"logic": "ldl", "text": one + "(" * n + "a & b" + ")" * n + "*" + two + end}
                yield {"logic": "ldl", "text": one + "(" * n + "a" + " ; b)" * n + two + end}
                yield {"logic": "ldl", "text": one + "(" * n + "a" + " + b)" * n + two + end}
                yield {"logic": "ldl", "text": one + "(" * n + "a" + " & b)" * n + two + end}
                yield {"logic": "ldl", "text": one + "(" * n + "a" + " & b) ; b" * n + two + end}
                yield {"logic": "ldl", "text": one + ";".join("a" * n) + two + end}
                yield {"logic": "ldl", "text": one + "+".join("a" * n) + two + end}
                yield {"logic": "ldl", "text": one + "a" + "*" * n + two + end}
                yield {"logic": "ldl", "text": one + "(tt?)" + "*" * n + two + end}
                yield {"logic": "ldl", "text": one + "(" * n + "tt?" + "; a) + b" * n + two + end}
                yield {"logic": "ldl", "text": one + "!" * n + "a" + two + end}


def parsed(case):
    logic, s = case["logic"], case["text"]
    m = Meter(len(s), dumps(s)[:2000], factor=20)
    accepted = not m("parsing", lambda: refused(lambda: PARSE[logic](s)))
    again = not m("parsing again", lambda: refused(lambda: PARSE[logic](s)))
    require(accepted is again, "{!r} is a formula only sometimes", s[:2000])
    if accepted:
        f = PARSE[logic](s)
        m("comparison", lambda: f == PARSE[logic](s))
        m("printing", lambda: to_string(f))
    return len(s) >= 30, ["%s %s" % (logic, "formula" if accepted else "refused"), "worst %.0e of the limit" % m.worst]


# -- terms -----------------------------------------------------------------------------


def term_towers(tier):
    for n in (10, 45):
        for name, arity, place in (("f", 1, 0), ("g", 2, 0), ("g", 2, 1), ("k", 3, 1)):
            t = ["var", "x"]
            for i in range(n):
                args = [["const", "c"]] * arity
                args[place] = t
                t = ["fun", name, args]
            yield {"term": t}
    t = ["var", "x"]
    yield {"term": ["fun", "f", [["const", "c%d" % i] for i in range(150)]]}


def terms(case):
    t = case["term"]
    n = term_weight(t)
    m = Meter(n, dumps(t)[:2000])
    f = m("construction", lambda: term(t))
    g = m("second construction", lambda: term(t))
    require(m("comparison", lambda: f == g) is True, "two constructions of {} are not equal", m.what)
    for name, op in (("hash", hash), ("string", str), ("representation", repr), ("copy", copy.deepcopy), ("pickling", lambda x: pickle.loads(pickle.dumps(x)))):
        m(name, lambda: op(f))
    for spec in (["pred", "P", [t]], ["forall", "x", ["pred", "R", [t, t]]], ["exists", "y", ["not", ["pred", "P", [t]]]]):
        operations(Meter(weight(spec), dumps(spec)[:2000]), spec, "fol")
    return n >= 30, ["term"]


# -- proofs ----------------------------------------------------------------------------


def boxes(n, rule):
    """A proof with n boxes, one inside the other."""
    p = ["pred", "P", []]

    def imply(i):
        f = p
        for k in range(i, n):
            f = ["implies", ["pred", "A%d" % k, []], f]
        return f

    row, f = 100, p
    inner = [["f", 99, p, "copy", [1]]]
    for i in range(n - 1, -1, -1):
        a = ["pred", "A%d" % i, []]
        if rule == "impl_i":
            box = ["b", row, [["f", row, a, "assumption", []]] + inner]
            f = ["implies", a, f]
            inner = [box, ["f", row + 1, f, "impl_i", [row]]]
        elif rule == "forall_i":
            v = "v%d" % i
            box = ["b", row, [["t", row, ["var", v]]] + inner]
            f = ["forall", "y%d" % i, f]
            inner = [box, ["f", row + 1, f, "forall_i", [row]]]
        elif rule == "neg_i":
            box = ["b", row, [["f", row, a, "assumption", []]] + inner + [["f", row + 2, ["ff"], "neg_e", [2, 1]]]]
            inner = [box, ["f", row + 1, ["not", a], "neg_i", [row]]]
        elif rule == "or_e":
            # two boxes, the second of which has no others
            one = ["b", row, [["f", row, a, "assumption", []]] + inner + [["f", row + 4, p, "copy", [1]]]]
            two = ["b", row + 2, [["f", row + 2, p, "assumption", []], ["f", row + 3, p, "copy", [row + 2]]]]
            inner = [["f", row + 5, ["or", a, p], "or_i2", [1]], one, two, ["f", row + 6, p, "or_e", [row + 5, row, row + 2]]]
        else:
            v = ["var", "v%d" % i]
            q = lambda t: ["pred", "Q", [t]]
            box = ["b", row, [["t", row, v], ["f", row, q(v), "assumption", []]] + inner + [["f", row + 4, p, "copy", [1]]]]
            inner = [["f", row + 5, ["exists", "z", q(["var", "z"])], "copy", [3]], box, ["f", row + 6, p, "exists_e", [row + 5, row]]]
        row += 10
    first = [["f", 1, p, "premise", []], ["f", 2, ["not", p], "premise", []], ["f", 3, ["exists", "z", ["pred", "Q", [["var", "z"]]]], "premise", []]]
    return (first[:1] if rule in ("impl_i", "forall_i", "or_e") else first) + inner


def long_proof(n, kind):
    p, q = ["pred", "P", []], ["pred", "Q", []]
    lines = [["f", 1, p, "premise", []]]
    f = p
    for i in range(2, n):
        if kind == "copy":
            lines.append(["f", i, p, "copy", [i - 1]])
        elif kind == "or":
            lines.append(["f", i, ["or", p, ["pred", "B%d" % i, []]], "or_i1", [1]])
        elif kind == "and":
            lines.append(["f", i, ["and", p, ["pred", "B%d" % i, []]], "premise", []] if i % 2 == 0 else ["f", i, p, "and_e1", [i - 1]])
        elif kind == "deep":
            # each formula is larger than the one before
            f = ["implies", q, f] if i % 2 else ["not", f]
            lines.append(["f", i, f, "premise" if i % 3 else "assumption", []])
        elif kind == "modus ponens":
            lines.append(["f", i, ["implies", p, ["pred", "B%d" % i, []]], "premise", []] if i % 2 == 0 else ["f", i, ["pred", "B%d" % (i - 1), []], "impl_e", [1, i - 1]])
        elif kind == "forall":
            x = ["forall", "x", ["pred", "R", [["var", "x"], ["const", "c%d" % (i // 2)]]]]
            lines.append(["f", i, x, "premise", []] if i % 2 == 0 else ["f", i, ["pred", "R", [["const", "d"], ["const", "c%d" % (i // 2)]]], "forall_e", [i - 1]])
        elif kind == "boxes":
            a = ["pred", "B%d" % i, []]
            lines += [["b", 1000 + i, [["f", 1000 + i, a, "assumption", []], ["f", 2000 + i, p, "copy", [1]]]], ["f", i, ["implies", a, p], "impl_i", [1000 + i]]]
        elif kind == "generic boxes":
            v = ["var", "v%d" % i]
            lines += [["b", 1000 + i, [["t", 1000 + i, v], ["f", 2000 + i, p, "copy", [1]]]], ["f", i, ["forall", "x", p], "forall_i", [1000 + i]]]
    return lines


def quantifiers(n, kind):
    """A step with n quantifiers, or a term of n levels."""
    vs = ["x%d" % i for i in range(n)]
    t = ["const", "c"]
    if kind == "nested":
        f = ["pred", "P", [["var", "y"], ["var", vs[0]]]]
        for v in vs:
            f = [["forall", "exists"][len(v) % 2], v, f]
        return [["f", 1, ["forall", "y", f], "premise", []], ["f", 2, nd.subst(f, "y", t), "forall_e", [1]], ["f", 3, ["exists", "y", f], "exists_i", [2]]]
    if kind == "wide":
        f = ["pred", "P", [["var", "y"]] * n]
        half = ["pred", "P", ([t, ["var", "y"]] * n)[:n]]
        return [["f", 1, ["forall", "y", f], "premise", []], ["f", 2, nd.subst(f, "y", t), "forall_e", [1]], ["f", 3, ["exists", "y", half], "exists_i", [2]]]
    for i in range(n):
        t = ["fun", "f", [t]] if kind == "unary" else ["fun", "g", [t, ["const", "c"]]] if i % 2 else ["fun", "g", [["const", "c"], t]]
    f = ["pred", "P", [["var", "y"], ["fun", "f", [["var", "y"]]]]]
    u = ["var", "u"]
    return [
        ["f", 1, ["forall", "y", f], "premise", []], ["f", 2, nd.subst(f, "y", t), "forall_e", [1]], ["f", 3, ["exists", "y", f], "exists_i", [2]],
        ["b", 4, [["t", 4, u], ["f", 5, nd.subst(f, "y", u), "forall_e", [1]]]], ["f", 6, ["forall", "z", nd.subst(f, "y", ["var", "z"])], "forall_i", [4]],
    ]


def proofs(tier):
    for n in (5, 12, 24):
        for rule in ("impl_i", "neg_i", "or_e", "forall_i", "exists_e"):
            yield {"proof": boxes(n, rule)}
    for kind in ("copy", "or", "and", "deep", "modus ponens", "forall", "boxes", "generic boxes"):
        for n in (12, 40, 80):
            yield {"proof": long_proof(n if kind != "deep" else n // 2, kind)}
    for kind in ("nested", "wide", "unary", "binary"):
        for n in (5, 16, 24):
            yield {"proof": quantifiers(n, kind)}


def proof_weight(lines):
    out = 0
    for line in nd.lines_of(lines):
        out += 1 + (weight(line[2]) if line[0] == "f" else term_weight(line[2]) if line[0] == "t" else 0)
    return out


def proof(case):
    lines = case["proof"]
    n = proof_weight(lines)
    m = Meter(n, dumps(lines)[:2000])
    made = m("construction", lambda: nd.ND.Proof(nd.flat(lines, "fol")))
    verdict = m("check", lambda: nd.ND.check(made))
    require(m("second check", lambda: nd.ND.check(made)) is verdict, "two checks of the same proof differ: {}", m.what)
    m("string", lambda: str(made))
    m("representation", lambda: repr(made))
    return n >= 30, ["proof %s" % verdict, "worst %.0e of the limit" % m.worst]


# -- histories -------------------------------------------------------------------------


@st.composite
def histories(draw):
    logic = draw(st.sampled_from(gen.LOGICS + ["fol"]))
    spec = draw(fol_formula(2)) if logic == "fol" else draw(gen.formula(logic, (1, 3), exotic=0, wide=False))
    return {"logic": logic, "spec": spec, "many": draw(st.integers(30, 1000)), "same": draw(st.booleans())}


def history(case):
    """The work does not depend on how much was done before."""
    spec, logic = case["spec"], case["logic"]
    n = weight(spec)

    build(spec, logic)  # the first time is different
    base.reset_cache()
    before = total(spec, logic, n)
    base.reset_cache()
    for i in range(case["many"]):
        x = wide_leaf(logic, 0 if case["same"] else i)
        build(["not", x] if i % 2 else ["and", x, ["not", wide_leaf(logic, i + 7)]], logic)
    after = total(spec, logic, n)
    require(after <= 2 * before + 2000, "the operations on {} take {} calls, and {} after {} other formulae", dumps(spec), before, after, case["many"])
    return True, [logic]


def total(spec, logic, n):
    out = 0

    class Sum(Meter):
        def __call__(self, name, fn):
            nonlocal out
            result, calls = work(fn, self.limit)
            require(calls is not None, "{} of a formula of size {} takes more than {} calls: {}", name, self.n, self.limit, self.what)
            out += calls
            return result

    operations(Sum(n, dumps(spec)[:2000]), spec, logic)
    return out


PARTS = [
    Part("towers", formula, cases=towers),
    Part("prefix towers", formula, cases=prefix_towers),
    Part("wide", formula, cases=wide),
    Part("texts", parsed, cases=texts),
    Part("names", named, cases=names),
    Part("terms", terms, cases=term_towers),
    Part("proofs", proof, cases=proofs),
    Part("trees", formula, trees(), quick=150, thorough=5000),
    Part("chains", formula, chains(), quick=300, thorough=20000),
    Part("quantified", formula, quantified(), quick=200, thorough=10000),
    Part("histories", history, histories(), quick=60, thorough=3000),
]
