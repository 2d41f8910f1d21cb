"""C26: the verdict on a proof does not depend on names, labels and lines that are not used."""
import copy
import pickle
import random
from fractions import Fraction

from hypothesis import strategies as st

from .. import nd, ndgen
from ..core import Skip, dumps, require
from ..engine import Part
from ..spec import BOOLEAN, base, build, children, rebuild

from pylogics_modalities.syntax.fol import Constant, Exists, ForAll, Function, Predicate, Term, Variable

ID = "C26"
RULE = (
    "a case is a proof (correct, mutated, around the side conditions of the quantifiers, or one of an enumeration of "
    "steps), with a number from which some changes that do not matter are drawn: other labels of the rows, other names of "
    "atoms, predicates, functions, constants and variables, atoms as predicates without arguments, more arguments, more "
    "premises, lines after, closed boxes, another order of the premises, shared or copied objects; or two proofs, one after the other; non-trivial: the proof "
    "applies a rule to a cited line"
)
ASSUMPTIONS = [
    "rows are unique; names are renamed one to one; variables, constants and functions without arguments have different names, "
    "without the punctuation of terms",
    "no atom or predicate is named 'false' (see the known findings of C15, C18 and C22), "
]

LABELS = dict(ndgen.LABELS)
LABELS["pairs"] = lambda i: (i, "x")
LABELS["powers"] = lambda i: 2 ** i
MIXED = [None, "", (), 0, "0", frozenset(), -1, 1.5, b"", "None", (0,), (None,), "1", 2, "premise", 10 ** 30, "\u00e9", "row 1", Ellipsis, True, list, nd.ND.rule.premise, nd.ND.rule.copy]
LABELS["fractions"] = lambda i: Fraction(i, 3)
LABELS["complex"] = lambda i: complex(i // 3, i % 3)
LABELS["mixed"] = lambda i: MIXED[i] if i < len(MIXED) else i + 1000
LABELS["mixed, backwards"] = lambda i: MIXED[-i - 1] if i < len(MIXED) else -i - 1000


def shared(spec, logic, memo):
    """A formula or a term in which equal parts are the same object."""
    key = dumps(spec)
    if key in memo:
        return memo[key]
    op = spec[0]
    if op == "var":
        out = Variable(spec[1])
    elif op == "const":
        out = Constant(spec[1])
    elif op == "fun":
        out = Function(spec[1], [shared(t, logic, memo) for t in spec[2]])
    elif op == "pred":
        out = Predicate(spec[1], [shared(t, logic, memo) for t in spec[2]])
    elif op in ("forall", "exists"):
        cls = ForAll if op == "forall" else Exists
        out = cls(shared(["var", spec[1]], logic, memo), shared(spec[2], logic, memo))
    elif op == "not":
        out = base.Not(shared(spec[1], logic, memo))
    elif op in BOOLEAN:
        out = BOOLEAN[op](*[shared(x, logic, memo) for x in spec[1:]])
    else:
        out = build(spec, logic)
    memo[key] = out
    return out


def swap(lines, items, logic, memo):
    """Put shared formulae and terms in the list that 'Proof' takes."""
    items = list(items)
    contents = [x for x in items if isinstance(x, (list, base.Formula, Term))]
    require(len(contents) == len(lines), "not the lines of the proof")
    for line, x in zip(lines, contents):
        i = next(i for i in range(len(items)) if items[i] is x)
        items[i] = swap(line[2], x, logic, memo) if line[0] == "b" else shared(line[2], logic, memo)
    return items


def verdict(lines, logic, how):
    items = nd.flat(lines, logic)
    if how == "shared":
        items = swap(lines, items, logic, {})
    if how == "copied":
        items = copy.deepcopy(items)
    if how == "pickled":
        items = pickle.loads(pickle.dumps(items))
    proof = nd.ND.Proof(items)
    if how == "copied proof":
        proof = copy.deepcopy(proof)
    if how == "pickled proof":
        proof = pickle.loads(pickle.dumps(proof))
    got = nd.ND.check(proof)
    require(type(got) is bool, "the verdict on {} is {!r}", dumps(lines), got)
    return got


def over_terms(f, fn):
    """The formula with other terms; the variables of quantifiers are terms too."""
    if f[0] == "pred":
        return ["pred", f[1], [fn(t) for t in f[2]]]
    if f[0] in ("forall", "exists"):
        return [f[0], fn(["var", f[1]])[1], over_terms(f[2], fn)]
    return rebuild(f, [over_terms(x, fn) for x in children(f)])


def over_atoms(f, fn):
    if f[0] in ("atom", "pred"):
        return fn(f)
    return rebuild(f, [over_atoms(x, fn) for x in children(f)])


def over_lines(lines, formula, of_term=lambda t: t):
    out = []
    for line in lines:
        if line[0] == "b":
            out.append(["b", line[1], over_lines(line[2], formula, of_term)])
        elif line[0] == "t":
            out.append(["t", line[1], of_term(line[2])])
        else:
            out.append(["f", line[1], formula(line[2])] + line[3:])
    return out


def names_of(lines):
    """The names of each sort."""
    found = {"atom": [], "pred": [], "var": [], "const": [], "fun": []}

    def add(sort, name):
        if name not in found[sort]:
            found[sort].append(name)

    def of_term(t):
        add(t[0], t[1])
        for x in t[2] if t[0] == "fun" else []:
            of_term(x)

    def of_formula(f):
        if f[0] in ("atom", "pred"):
            add(f[0], f[1])
        if f[0] == "pred":
            for t in f[2]:
                of_term(t)
        if f[0] in ("forall", "exists"):
            add("var", f[1])
        for x in children(f):
            of_formula(x)

    for line in nd.lines_of(lines):
        if line[0] == "f":
            of_formula(line[2])
        elif line[0] == "t":
            of_term(line[2])
    return found


def terms_of(lines):
    """The terms, and the terms in them."""
    found = []

    def of_term(t):
        found.append(t)
        for x in t[2] if t[0] == "fun" else []:
            of_term(x)
        return t

    over_lines(lines, lambda f: over_terms(f, of_term), of_term)
    return found


def fresh_names(rng, n):
    """Different names that differ from the usual ones."""
    style = rng.randrange(10)
    if style == 0:
        out = ["v%d" % i for i in range(n)]
    elif style == 1:
        out = ["a" * (i + 1) + "_" for i in range(n)]
    elif style == 2:
        out = ["name" + "abcdefghij"[i % 10] * (i // 10 + 1) for i in range(n)]
    elif style == 3:
        out = ["x" + "0" * i for i in range(n)]
    elif style == 4:
        out = ["_%d" % (n - i) for i in range(n)]
    elif style == 5:
        # the usual names, for something else
        out = ["x", "a", "y", "b", "f", "z", "c", "g", "u", "d", "h", "v", "w", "e", "p", "q", "r", "s", "t", "k", "l", "m", "n"][:n]
        out += ["o%d" % i for i in range(n - len(out))]
    elif style == 6:
        # differences of case only
        out = ["x" + "".join(c.upper() if i >> k & 1 else c for k, c in enumerate("abcdefgh")) for i in range(n)]
    elif style == 7:
        out = ["quite_a_long_name_" * 2 + "%d" % i for i in range(n)]
    elif style == 8:
        out = ["%d_%d" % (i % 3, i // 3) if i % 2 else "x%d" % i for i in range(n)]
        out = [x if x[0] == "x" else "x" + x for x in out]
    else:
        out = ["forall", "exists", "and", "or", "not", "implies", "equivalence", "tt", "ff", "is", "argument", "operands", "name", "formula", "variable"][:n]
        out += ["w%d" % i for i in range(n - len(out))]
    rng.shuffle(out)
    return out


def rename(rng, lines):
    found = names_of(lines)
    everything = [(sort, x) for sort in sorted(found) for x in found[sort]]
    if rng.randrange(2):
        new = dict(zip(everything, fresh_names(rng, len(everything))))
    else:
        # a predicate may have the name of a term
        new = {}
        for some in (("atom", "pred"), ("var", "const", "fun")):
            part = [x for x in everything if x[0] in some]
            new.update(zip(part, fresh_names(rng, len(part))))
    if rng.randrange(3) == 0 and not any(t[0] == "fun" and not t[2] for t in terms_of(lines)):
        # a function of some arguments may have the name of a term
        names = [new[x] for x in everything if x[0] in ("var", "const")]
        rng.shuffle(names)
        new.update(zip([x for x in everything if x[0] == "fun"], names))
    if rng.randrange(3) == 0:
        # capital letters, of predicates only
        new = {k: v[:1].upper() + v[1:] + "_P" if k[0] == "pred" else v for k, v in new.items()}

    def of_term(t):
        return [t[0], new[t[0], t[1]]] + ([[of_term(x) for x in t[2]]] if t[0] == "fun" else [])

    def of_formula(f):
        return over_atoms(over_terms(f, of_term), lambda x: [x[0], new[x[0], x[1]]] + x[2:])

    return over_lines(lines, of_formula, of_term)


def widen(rng, lines):
    """One more argument for each predicate."""
    place = rng.randrange(2)
    extra = [["const", "extra"], ["fun", "extra_f", []], ["fun", "extra_f", [["const", "extra"]]]][rng.randrange(3)]
    return over_lines(lines, lambda f: over_atoms(f, lambda x: ["pred", x[1], [extra] + x[2] if place else x[2] + [extra]]))


def nest(rng, lines):
    """The arguments of the predicates are values of one more function."""
    n = rng.randrange(1, 4)

    def more(t):
        for i in range(n):
            t = ["fun", "more_f", [t]]
        return t

    return over_lines(lines, lambda f: over_atoms(f, lambda x: ["pred", x[1], [more(t) for t in x[2]]]))


def nullary(f):
    return over_atoms(f, lambda x: ["pred", x[1], []] if x[0] == "atom" else x)


def relabel(rng, lines):
    order = ndgen.sort_rows(lines)
    if rng.randrange(3) == 0:
        rng.shuffle(order)
    name = rng.choice(sorted(LABELS))
    labels = {r: LABELS[name](i) for i, r in enumerate(order)}

    def cites(lines):
        # what is not a row is still not a row
        for line in nd.lines_of(lines):
            if line[0] == "f":
                for c in line[4]:
                    if c not in labels:
                        x = rng.choice(order) if order else None
                        near = [repr(x), "no row", (), None, 0, "", -1, 1, 10 ** 6]
                        if isinstance(labels.get(x), (int, float)):
                            near += [str(labels[x]), -labels[x], labels[x] + 1, labels[x] - 1, labels[x] + 0.25, 2 * labels[x]]
                        elif isinstance(labels.get(x), str):
                            near += [labels[x].upper(), labels[x].lower(), labels[x] + " ", labels[x] * 2]
                        taken = [labels[y] for y in labels]
                        labels[c] = rng.choice([y for y in near + ["no row %r" % (c,)] * 2 if y not in taken])

    cites(lines)
    return ndgen.relabel(lines, labels)


def extend(rng, lines, logic):
    """Lines that nothing depends on."""
    new = max([r for r in ndgen.rows(lines) if isinstance(r, int)] + [0]) + 1000
    made = [0]

    def atom():
        made[0] += 1
        return ["atom", "new%d" % made[0]] if logic == "pl" else ["pred", "New%d" % made[0], []]

    def some():
        nonlocal new
        new += 10
        kind = rng.randrange(4)
        if kind == 0:
            return ["f", new, atom(), "premise", []]
        if kind == 1:
            return ["f", new, ["implies", atom(), ["not", atom()]], "premise", []]
        if kind == 2 or logic == "pl":
            f = atom()
            return ["b", new, [["f", new, f, "assumption", []], ["f", new + 1, f, "copy", [new]]]]
        v = ["var", "newv%d" % made[0]]
        f = ["pred", "NewP", [v]]
        return ["b", new, [["t", new, v], ["f", new, f, "assumption", []]]]

    where = rng.randrange(3)
    extra = [some() for _ in range(rng.choice([1] * 12 + [2] * 6 + [3] * 6 + [10] * 3 + [40] * 2 + [400]))]
    if where == 0:
        return extra + lines
    if where == 1:
        return lines + extra
    i = rng.randrange(len(lines) + 1)
    return lines[:i] + extra + lines[i:]


def shuffle_premises(rng, lines):
    """The premises that come first, in another order."""
    n = 0
    while n < len(lines) and lines[n][0] == "f" and lines[n][3] == "premise" and not lines[n][4]:
        n += 1
    first = lines[:n]
    rng.shuffle(first)
    return first + lines[n:]


def check(case):
    logic, lines = case["logic"], case["proof"]
    rng = random.Random(case["seed"])
    if lines and lines[0][0] == "t":
        raise Skip
    before = verdict(lines, logic, "as it is")
    changed, done = copy.deepcopy(lines), []
    if logic == "pl" and rng.randrange(3) == 0:
        changed, logic = over_lines(changed, nullary), "fol"
        done.append("predicates")
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        kind = rng.choice(["rename", "rename", "relabel", "relabel", "extend", "premises"] + ["widen", "nest"] * (logic == "fol"))
        if kind in done:
            continue
        done.append(kind)
        changed = {
            "rename": lambda: rename(rng, changed), "relabel": lambda: relabel(rng, changed), "extend": lambda: extend(rng, changed, logic),
            "premises": lambda: shuffle_premises(rng, changed), "widen": lambda: widen(rng, changed), "nest": lambda: nest(rng, changed),
        }[kind]()
        if kind == "relabel":
            break
    how = rng.choice(["as it is"] * 4 + ["shared", "copied", "pickled", "copied proof", "pickled proof"])
    after = verdict(changed, logic, how)
    require(
        after is before, "the proof {}\n  is {}, and it is {} after {} ({}):\n  {}", dumps(lines), "accepted" if before else "rejected",
        "accepted" if after else "rejected", ", ".join(done) or "no change", how, dumps(changed),
    )
    cited = any(line[0] == "f" and line[4] for line in nd.lines_of(lines))
    return cited and bool(done or how != "as it is"), ["%s, %s" % (d, "accepted" if before else "rejected") for d in done + [how]]


def apart(lines, rows, names):
    """The same proof with other rows and names."""
    found = names_of(lines)
    new = {(sort, x): x + names for sort in found for x in found[sort]}

    def of_term(t):
        return [t[0], new[t[0], t[1]]] + ([[of_term(x) for x in t[2]]] if t[0] == "fun" else [])

    def of_formula(f):
        return over_atoms(over_terms(f, of_term), lambda x: [x[0], new[x[0], x[1]]] + x[2:])

    labels = {}
    for line in nd.lines_of(lines):
        for r in [line[1]] + (line[4] if line[0] == "f" else []):
            labels.setdefault(r, (rows, r))
    return ndgen.relabel(over_lines(lines, of_formula, of_term), labels)


def check_both(case):
    """One proof after the other, and the beginning of each."""
    logic, first, second = case["logic"], case["proof"], case["other"]
    for lines in (first, second):
        if not lines or lines[0][0] == "t":
            raise Skip
    one, other = verdict(first, logic, "as it is"), verdict(second, logic, "as it is")
    both = apart(first, "one", "") + apart(second, "other", "_2")
    got = verdict(both, logic, case["how"])
    require(
        got is (one and other), "the proofs {}\n  and {}\n  are {} and {}, and the first followed by the second is {}", dumps(first), dumps(second),
        one, other, got,
    )
    n = case["cut"] % len(first)
    if n:
        start = verdict(first[:n], logic, "as it is")
        require(start or not one, "the proof {}\n  is accepted, and its first {} lines are not", dumps(first), n)
    return len(both) > 2, ["%s and %s" % (one, other)]


@st.composite
def pairs(draw, one, other):
    a, b = draw(one), draw(other)
    return {
        "logic": a["logic"], "proof": a["proof"], "other": b["proof"], "cut": draw(st.integers(0, 30)), "how": draw(st.sampled_from(["as it is", "shared"])),
    }


@st.composite
def seeded(draw, source):
    return dict(draw(source), seed=draw(st.integers(0, 10 ** 6)))


def enumerated(*sources):
    def cases(tier):
        i = 0
        for source in sources:
            for case in source(tier):
                i += 1
                if tier == "thorough" or i % 3 == 0:
                    yield dict(case, seed=i)

    return cases


PARTS = [
    Part("steps", check, cases=enumerated(ndgen.single_steps, ndgen.more_steps, ndgen.case_steps, ndgen.wide_steps)),
    Part("boxes", check, cases=enumerated(ndgen.box_steps, ndgen.box_endings)),
    Part("quantifiers", check, cases=enumerated(ndgen.quantifier_steps, ndgen.generic_steps, ndgen.copy_steps, ndgen.wide_quantifiers)),
    Part("schemas", check, cases=enumerated(ndgen.schemas)),
    Part("correct propositional", check, seeded(ndgen.correct("pl")), quick=2000, thorough=60000),
    Part("correct first-order", check, seeded(ndgen.correct("fol")), quick=2000, thorough=60000),
    Part("mutated propositional", check, seeded(ndgen.mutated("pl", 1)), quick=2500, thorough=80000),
    Part("mutated first-order", check, seeded(ndgen.mutated("fol", 1)), quick=2500, thorough=80000),
    Part("side conditions", check, seeded(ndgen.quantified()), quick=2500, thorough=80000),
    Part("one after the other, propositional", check_both, pairs(ndgen.correct("pl"), ndgen.correct("pl")), quick=500, thorough=20000),
    Part("one after the other, first-order", check_both, pairs(ndgen.correct("fol"), ndgen.correct("fol")), quick=500, thorough=20000),
    Part("one after the other, mutated", check_both, pairs(ndgen.mutated("fol", 1), ndgen.mutated("fol", 1)), quick=500, thorough=20000),
    Part("one after the other, mutated propositional", check_both, pairs(ndgen.mutated("pl", 1), ndgen.mutated("pl", 1)), quick=500, thorough=20000),
    Part("one after the other, side conditions", check_both, pairs(ndgen.quantified(), ndgen.quantified()), quick=500, thorough=20000),
]
