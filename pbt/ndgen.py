"""Hypothesis strategies of natural-deduction proofs: correct ones, made forwards, and mutated ones."""
import copy
import itertools

from hypothesis import strategies as st

from .core import freeze
from .folgen import CONSTS, VARS, fol_formula
from .folgen import term as fol_term
from .nd import Capture, imp, instances, normal, occurs, occurs_free, reference, subst, terms_of, thaw
from .spec import children, negate, norm, rebuild

ATOMS = ["p", "q", "r", "s"]
GENERIC = ["u", "v", "w"]
RULES = {
    "pl": ["and_e1", "and_e2", "and_i", "bot_e", "copy", "dneg_e", "dneg_i", "impl_e", "impl_i", "MT", "neg_e", "neg_i",
           "or_e", "or_i1", "or_i2"],
}
RULES["fol"] = RULES["pl"] + ["exists_e", "exists_i", "forall_e", "forall_i"]


@st.composite
def pl_formula(draw, fuel=2):
    if fuel <= 0:
        if draw(st.integers(0, 11)) == 11:
            return draw(st.sampled_from([["tt"], ["ff"]]))
        return ["atom", draw(st.sampled_from(ATOMS))]
    kind = draw(st.sampled_from(["leaf", "not", "and", "or", "to", "to", "implies", "iff"]))
    sub = pl_formula(fuel - 1)
    if kind == "leaf":
        return draw(pl_formula(0))
    if kind == "not":
        return ["not", draw(sub)]
    if kind == "to":
        return ["or", ["not", draw(sub)], draw(sub)]
    return [kind] + [draw(sub) for _ in range(draw(st.sampled_from([2, 2, 2, 2, 3])))]


class Prover:
    """Makes correct proofs, forwards: it only applies rules where they apply."""

    def __init__(self, draw, logic, budget):
        self.draw, self.logic, self.budget = draw, logic, budget
        self.row = 0
        self.steps = 0
        self.rules = set()

    def pick(self, options):
        return self.draw(st.sampled_from(list(options)))

    def chance(self, n):
        return self.draw(st.integers(0, n - 1)) == n - 1

    def next_row(self):
        self.row += 1
        return self.row

    def formula(self, fuel=2):
        fuel = self.draw(st.integers(0, fuel))
        return norm(self.draw(pl_formula(fuel) if self.logic == "pl" else fol_formula(fuel)))

    # -- the structure of proofs

    def proof(self):
        lines = []
        visible = []
        for _ in range(self.draw(st.sampled_from([0, 1, 1, 2, 2, 3]))):
            line = ["f", self.next_row(), self.premise(visible), "premise", []]
            lines.append(line)
            visible.append(line)
        self.extend(lines, visible, self.draw(st.integers(1, 6)), 0)
        return lines

    def premise(self, visible):
        """Formulae that make rules apply."""
        formulas = [x[2] for x in visible if x[0] == "f"]
        if formulas and self.chance(2):
            f = self.pick(formulas)
            kind = self.pick(["imp", "imp", "not", "anti", "or"])
            if kind == "imp":
                return self.pick(imp(f, self.formula(1)))
            if kind == "anti":
                return self.pick(imp(self.formula(1), negate(f)))
            if kind == "or":
                return norm(["or", f, self.formula(1)])
            return negate(f)
        if self.logic == "fol" and self.chance(2):
            return norm([self.pick(["forall", "exists"]), self.pick(VARS), self.formula(1)])
        return self.formula()

    def extend(self, lines, visible, n, depth):
        """Add n steps to the lines of a scope."""
        for _ in range(n):
            if self.steps >= self.budget:
                return
            rules = list(RULES[self.logic])
            if depth >= 3:
                rules = [r for r in rules if r not in ("impl_i", "neg_i", "or_e", "forall_i", "exists_e")]
            # draw rules until one applies
            for rule in self.draw(st.permutations(rules))[:6]:
                made = self.attempt(rule, visible, depth)
                if made:
                    self.rules.add(rule)
                    for line in made:
                        lines.append(line)
                        visible.append(line)
                    break
            self.steps += 1

    def attempt(self, rule, visible, depth):
        """The lines that apply the rule, or None."""
        known = [x for x in visible if x[0] == "f"]
        return getattr(self, "r_" + rule)(known, visible, depth)

    def line(self, f, rule, *cites):
        return ["f", self.next_row(), f, rule, list(cites)]

    # -- propositional rules

    def r_copy(self, known, visible, depth):
        return known and [self.line(*(lambda x: (x[2], "copy", x[1]))(self.pick(known)))]

    def r_dneg_i(self, known, visible, depth):
        x = known and self.pick(known)
        return x and [self.line(x[2], "dneg_i", x[1])]

    def r_dneg_e(self, known, visible, depth):
        x = known and self.pick(known)
        return x and [self.line(x[2], "dneg_e", x[1])]

    def r_and_i(self, known, visible, depth):
        if not known:
            return None
        x, y = self.pick(known), self.pick(known)
        return [self.line(norm(["and", x[2], y[2]]), "and_i", x[1], y[1])]

    def and_e(self, known, i):
        xs = [x for x in known if x[2][0] == "and" and len(x[2]) == 3]
        x = xs and self.pick(xs)
        return x and [self.line(x[2][i], "and_e%d" % i, x[1])]

    def r_and_e1(self, known, visible, depth):
        return self.and_e(known, 1)

    def r_and_e2(self, known, visible, depth):
        return self.and_e(known, 2)

    def or_i(self, known, i):
        xs = [x for x in known if x[2][0] != "or"]
        if not xs:
            return None
        x = self.pick(xs)
        other = self.pick(known)[2] if self.chance(3) else self.formula(1)
        f = ["or", x[2], other] if i == 1 else ["or", other, x[2]]
        return [self.line(f, "or_i%d" % i, x[1])] if normal(f) else None

    def r_or_i1(self, known, visible, depth):
        return self.or_i(known, 1)

    def r_or_i2(self, known, visible, depth):
        return self.or_i(known, 2)

    @staticmethod
    def readings(h):
        """The pairs (phi, psi) such that the formula is 'phi implies psi'."""
        if h[0] == "implies" and len(h) == 3:
            yield h[1], h[2]
        if h[0] == "or":
            rest = h[2:]
            yield negate(h[1]), rest[0] if len(rest) == 1 else ["or"] + rest

    def r_impl_e(self, known, visible, depth):
        found = []
        for x in known:
            for phi, psi in self.readings(x[2]):
                if x[2] in imp(phi, psi):
                    found += [(psi, y[1], x[1]) for y in known if y[2] == phi]
        return found and [self.line(*(lambda t: (t[0], "impl_e", t[1], t[2]))(self.pick(found)))]

    def r_MT(self, known, visible, depth):
        found = []
        for x in known:
            for phi, psi in self.readings(x[2]):
                if x[2] in imp(phi, psi):
                    found += [(negate(phi), x[1], y[1]) for y in known if y[2] == negate(psi)]
        return found and [self.line(*(lambda t: (t[0], "MT", t[1], t[2]))(self.pick(found)))]

    def r_neg_e(self, known, visible, depth):
        found = [(x[1], y[1]) for x in known for y in known if y[2] == negate(x[2])]
        return found and [self.line(["ff"], "neg_e", *self.pick(found))]

    def r_bot_e(self, known, visible, depth):
        xs = [x for x in known if x[2] == ["ff"]]
        x = xs and self.pick(xs)
        return x and [self.line(self.formula(), "bot_e", x[1])]

    def box(self, visible, opening, depth, steps=None):
        """A box that opens with the given lines; the result always ends with a formula."""
        row = opening[0][1]
        lines = list(opening)
        inner = visible + [x for x in opening if x[0] == "f"]
        self.extend(lines, inner, self.draw(st.integers(0, 3)) if steps is None else steps, depth + 1)
        return ["b", row, lines], inner

    def conclude(self, box, inner, f):
        """Make the box end with a formula that is known in it."""
        if box[2][-1][0] == "f" and box[2][-1][2] == f:
            return True
        xs = [x for x in inner if x[0] == "f" and x[2] == f]
        if xs:
            x = self.pick(xs)
            box[2].append(self.line(f, "copy", x[1]))
            return True
        return False

    def ends(self, box, inner):
        """Make the box end with a formula."""
        if box[2][-1][0] != "f":
            known = [x for x in inner if x[0] == "f"]
            if not known:
                return False
            self.conclude(box, inner, self.pick(known)[2])
        return True

    def assumption(self, f):
        return ["f", self.next_row(), f, "assumption", []]

    def r_impl_i(self, known, visible, depth):
        if known and self.chance(2):
            phi = self.pick([x[2] for x in known] + [negate(x[2]) for x in known])
        else:
            phi = self.formula(1)
        box, inner = self.box(visible, [self.assumption(phi)], depth)
        if not self.ends(box, inner):
            return None
        psi = box[2][-1][2]
        return [box, self.line(self.pick(imp(phi, psi)), "impl_i", box[1])]

    def r_neg_i(self, known, visible, depth):
        if not known:
            return None
        x = self.pick(known)
        # an assumption that is refuted by a known formula
        options = [negate(x[2])]
        if x[2][0] == "not":
            options.append(norm(["and", x[2][1], self.formula(1)]))
        for phi, psi in self.readings(x[2]):
            options += [norm(["and", phi, negate(psi)])]
        phi = self.pick(options)
        box, inner = self.box(visible, [self.assumption(phi)], depth)
        for rule in ("and_e1", "and_e2", "impl_e"):
            made = self.attempt(rule, inner, depth + 1)
            for line in made or []:
                box[2].append(line)
                inner.append(line)
        if not self.conclude(box, inner, ["ff"]):
            found = [(a[1], b[1]) for a in inner for b in inner if a[0] == b[0] == "f" and b[2] == negate(a[2])]
            if not found:
                return None
            box[2].append(self.line(["ff"], "neg_e", *self.pick(found)))
        return [box, self.line(negate(phi), "neg_i", box[1])]

    def r_or_e(self, known, visible, depth):
        xs = [x for x in known if x[2][0] == "or"]
        if not xs:
            return None
        x = self.pick(xs)
        cut = self.draw(st.integers(2, len(x[2]) - 1))
        sides = [x[2][1:cut], x[2][cut:]]
        phi, psi = [s[0] if len(s) == 1 else ["or"] + s for s in sides]
        if norm(["or", phi, psi]) != x[2]:
            return None
        box1, inner1 = self.box(visible, [self.assumption(phi)], depth)
        box2, inner2 = self.box(visible, [self.assumption(psi)], depth)
        both = [f[2] for f in inner1 if f[0] == "f" and any(g[0] == "f" and g[2] == f[2] for g in inner2)]
        goals = []
        if phi[0] != "or" and psi[0] != "or" and normal(["or", phi, psi]):
            goals.append(["or", phi, psi])
            if normal(["or", psi, phi]):
                goals.append(["or", psi, phi])
        if not both and not goals:
            return None
        kind = self.pick(["both"] * bool(both) + ["or"] * bool(goals))
        if kind == "both":
            chi = self.pick(both)
            self.conclude(box1, inner1, chi)
            self.conclude(box2, inner2, chi)
        else:
            chi = self.pick(goals)
            first = 1 if chi[1] == phi else 2
            box1[2].append(self.line(chi, "or_i%d" % first, box1[1]))
            box2[2].append(self.line(chi, "or_i%d" % (3 - first), box2[1]))
        return [box1, box2, self.line(chi, "or_e", x[1], box1[1], box2[1])]

    # -- first-order rules

    def r_forall_e(self, known, visible, depth):
        xs = [x for x in known if x[2][0] == "forall"]
        if not xs:
            return None
        x = self.pick(xs)
        generics = [["var", v] for v in GENERIC] + [["const", c] for c in ("d", "e")]
        t = self.pick(generics) if self.chance(3) else self.draw(fol_term(fuel=2))
        try:
            f = subst(x[2][2], x[2][1], t)
        except Capture:
            return None
        return [self.line(f, "forall_e", x[1])] if normal(f) else None

    def r_exists_i(self, known, visible, depth):
        if not known:
            return None
        y = self.pick(known)
        variables = [v for v in VARS + ["t"] if not occurs(["var", v], y[2])]
        if not variables:
            return None
        x = self.pick(variables)
        ts = sorted({freeze(t) for t in terms_of(y[2])})
        if not ts or self.chance(6):
            return [self.line(["exists", x, y[2]], "exists_i", y[1])]
        t = thaw(self.pick(ts))
        phi = self.generalise(y[2], x, t, ())
        try:
            if subst(phi, x, t) != y[2] or not normal(phi):
                return None
        except Capture:
            return None
        return [self.line(["exists", x, phi], "exists_i", y[1])]

    def generalise(self, f, x, t, bound):
        """Replace some of the occurrences of a term with a variable."""
        if f[0] == "pred":
            return ["pred", f[1], [self.generalise_term(u, x, t, bound) for u in f[2]]]
        if f[0] in ("forall", "exists"):
            return [f[0], f[1], self.generalise(f[2], x, t, bound + (f[1],))]
        return rebuild(f, [self.generalise(c, x, t, bound) for c in children(f)])

    def generalise_term(self, u, x, t, bound):
        if u == t and not (t[0] == "var" and t[1] in bound) and not self.chance(4):
            return ["var", x]
        if u[0] == "fun":
            return ["fun", u[1], [self.generalise_term(w, x, t, bound) for w in u[2]]]
        return u

    def generic(self, visible):
        """A term that occurs in no line that is visible."""
        options = [["var", v] for v in GENERIC] + [["const", c] for c in ("d", "e")]
        used = [x[2] for x in visible if x[0] in "f"]
        opened = [x[2] for x in visible if x[0] == "t"]
        options = [o for o in options if not any(occurs(o, f) for f in used) and o not in opened]
        return self.pick(options) if options else None

    def r_forall_i(self, known, visible, depth):
        a = self.generic(visible)
        if a is None:
            return None
        row = self.next_row()
        box = ["b", row, [["t", row, a]]]
        inner = list(visible) + [["t", row, a]]
        # the first line, which shares the row of the box
        first = None
        xs = [x for x in known if x[2][0] == "forall"]
        for x in self.draw(st.permutations(xs))[:2]:
            try:
                f = subst(x[2][2], x[2][1], a)
            except Capture:
                continue
            if normal(f):
                first = ["f", row, f, "forall_e", [x[1]]]
                break
        if first is None and depth < 3 and self.chance(2):
            # a box that opens with a box
            phi = norm(self.draw(fol_formula(1, variables=("x", a[1]) if a[0] == "var" else ("x",), constants=("a", "d", "e"))))
            made = self.r_impl_i_of(phi, inner, depth + 1)
            if not made:
                return None
            box[2] += made
            inner += made
        else:
            if first is None:
                if not known:
                    return None
                x = self.pick(known)
                first = ["f", row, x[2], "copy", [x[1]]]
            box[2].append(first)
            inner.append(first)
        self.extend(box[2], inner, self.draw(st.integers(0, 2)), depth + 1)
        if not self.ends(box, inner):
            return None
        last = box[2][-1][2]
        if a[0] == "var" and self.chance(4):
            x, phi = a[1], last
        else:
            variables = [v for v in VARS + ["t"] if not occurs(["var", v], last)]
            if not variables or occurs(a, last) != occurs_free(a, last):
                return None
            x = self.pick(variables)
            phi = self.replace(last, a, ["var", x])
        try:
            if subst(phi, x, a) != last or not normal(phi):
                return None
        except Capture:
            return None
        return [box, self.line(["forall", x, phi], "forall_i", row)]

    def r_impl_i_of(self, phi, visible, depth):
        box, inner = self.box(visible, [self.assumption(phi)], depth)
        if not self.ends(box, inner):
            return None
        return [box, self.line(self.pick(imp(phi, box[2][-1][2])), "impl_i", box[1])]

    def replace(self, f, t, u):
        """Replace all the occurrences of a term."""
        if f[0] == "pred":
            return ["pred", f[1], [self.replace_term(w, t, u) for w in f[2]]]
        return rebuild(f, [self.replace(c, t, u) for c in children(f)])

    def replace_term(self, w, t, u):
        if w == t:
            return u
        return ["fun", w[1], [self.replace_term(v, t, u) for v in w[2]]] if w[0] == "fun" else w

    def r_exists_e(self, known, visible, depth):
        xs = [x for x in known if x[2][0] == "exists"]
        a = self.generic(visible)
        if not xs or a is None:
            return None
        x = self.pick(xs)
        try:
            phi = subst(x[2][2], x[2][1], a)
        except Capture:
            return None
        if not normal(phi):
            return None
        row = self.next_row()
        opening = [["t", row, a], ["f", row, phi, "assumption", []]]
        box, inner = self.box(list(visible) + opening[:1], opening, depth)
        options = [f[2] for f in inner if f[0] == "f" and not occurs(a, f[2])]
        made = self.r_exists_i([f for f in inner if f[0] == "f" and f[1] >= row], inner, depth)
        if made and not occurs(a, made[0][2]) and (not options or self.chance(2)):
            box[2].extend(made)
        elif options:
            self.conclude(box, inner, self.pick(options))
        else:
            return None
        chi = box[2][-1][2]
        return [box, self.line(chi, "exists_e", x[1], row)]


@st.composite
def correct(draw, logic, budget=12):
    """A correct proof."""
    prover = Prover(draw, logic, budget)
    lines = prover.proof()
    if not lines:
        lines = [["f", 1, norm(["implies", ["tt"], ["tt"]]), "premise", []]]
    return {"logic": logic, "proof": lines}


# -- mutations -------------------------------------------------------------------------


def positions(lines, path=()):
    """The paths of the lines of a proof."""
    for i, line in enumerate(lines):
        yield path + (i,)
        if line[0] == "b":
            yield from positions(line[2], path + (i,))


def scope_at(lines, path):
    for i in path[:-1]:
        lines = lines[i][2]
    return lines


def rows(lines):
    out = []
    for line in lines:
        out.append(line[1])
        if line[0] == "b":
            out += rows(line[2])
    return out


def map_formulas(lines, fn):
    for line in lines:
        if line[0] == "f":
            line[2] = norm(fn(line[2]))
        elif line[0] == "b":
            map_formulas(line[2], fn)


def edit_formula(draw, logic, f, pool):
    """Another formula, close to the given one or to the ones of the proof."""
    sub = norm(draw(pl_formula(1) if logic == "pl" else fol_formula(1)))
    options = [negate(f), draw(st.sampled_from(pool)) if pool else sub, sub, ["ff"]]
    kids = children(f)
    if kids:
        options.append(draw(st.sampled_from(kids)))
        i = draw(st.integers(0, len(kids) - 1))
        options.append(rebuild(f, kids[:i] + [edit_formula(draw, logic, kids[i], pool)] + kids[i + 1:]))
        if len(kids) > 1:
            options.append(rebuild(f, kids[::-1]))
    if f[0] == "or":
        options.append(rebuild(f, [negate(kids[0])] + kids[1:]))
    if f[0] in ("forall", "exists"):
        options.append([{"forall": "exists", "exists": "forall"}[f[0]], f[1], f[2]])
        options.append([f[0], draw(st.sampled_from(VARS)), f[2]])
        if f[2][0] in ("forall", "exists"):
            options.append([f[2][0], f[2][1], [f[0], f[1], f[2][2]]])
    if f[0] in ("and", "or", "implies"):
        options.append([draw(st.sampled_from(["and", "or", "implies"]))] + f[1:])
    if f[0] == "pred" and f[2]:
        ts = list(f[2])
        ts[draw(st.integers(0, len(ts) - 1))] = draw(fol_term(fuel=1))
        options += [["pred", f[1], ts]] * 2
    return norm(draw(st.sampled_from(options)))


def mutate(draw, case):
    """A small change of a proof, which often makes it wrong."""
    logic, lines = case["logic"], copy.deepcopy(case["proof"])
    where = list(positions(lines))
    path = draw(st.sampled_from(where))
    scope = scope_at(lines, path)
    line = scope[path[-1]]
    from .nd import formulas

    pool = list(formulas(lines))
    everything = rows(lines)
    kinds = ["delete", "swap", "duplicate", "hoist", "term", "sink"]
    if line[0] == "f":
        kinds += ["formula"] * 4 + ["rule"] * 3 + ["cite"] * 5 * bool(line[4]) + ["cites"] * 2 * bool(line[4]) + ["more"] * 2 + ["drop"] * bool(line[4])
    if line[0] == "b":
        kinds += ["opening"] * 2 + ["unbox"]
    if line[0] == "t":
        kinds += ["term"] * 4
    kind = draw(st.sampled_from(kinds))
    if kind == "formula":
        line[2] = edit_formula(draw, logic, line[2], pool)
    elif kind == "rule":
        names = RULES[logic] + ["premise", "assumption"]
        pairs = {"and_e1": "and_e2", "and_e2": "and_e1", "or_i1": "or_i2", "or_i2": "or_i1", "forall_e": "exists_i",
                 "exists_i": "forall_e", "impl_i": "neg_i", "neg_i": "impl_i", "impl_e": "MT", "MT": "impl_e"}
        line[3] = pairs[line[3]] if line[3] in pairs and draw(st.booleans()) else draw(st.sampled_from(names))
    elif kind == "cite":
        i = draw(st.integers(0, len(line[4]) - 1))
        line[4][i] = draw(st.sampled_from(everything + [0, 99]))
    elif kind == "cites":
        line[4].reverse()
    elif kind == "drop":
        line[4].pop()
    elif kind == "more":
        # a superfluous citation
        line[4].insert(draw(st.integers(0, len(line[4]))), draw(st.sampled_from(everything)))
    elif kind == "delete":
        if len(scope) > 1:
            del scope[path[-1]]
    elif kind == "swap":
        j = draw(st.integers(0, len(scope) - 1))
        scope[path[-1]], scope[j] = scope[j], scope[path[-1]]
    elif kind == "duplicate":
        other = draw(st.sampled_from(where))
        extra = copy.deepcopy(scope_at(lines, other)[other[-1]])
        if extra[0] == "f":
            extra[1] = max(everything) + 1
            scope.insert(path[-1] + draw(st.integers(0, 1)), extra)
    elif kind == "hoist" and len(path) > 1 and line[0] == "f" and len(scope) > 1:
        del scope[path[-1]]
        outer = scope_at(lines, path[:-1])
        outer.insert(path[-2] + 1, line)
    elif kind == "sink" and path[-1] > 0 and scope[path[-1] - 1][0] == "b":
        box = scope[path[-1] - 1]
        box[2].append(scope.pop(path[-1]))
    elif kind == "opening" and line[2][0][0] == "f":
        line[2][0][2] = edit_formula(draw, logic, line[2][0][2], pool)
    elif kind == "unbox":
        scope[path[-1]:path[-1] + 1] = [x for x in line[2] if x[0] != "t"] or [line]
    elif kind == "term" and logic == "fol":
        names = [["var", v] for v in VARS + GENERIC] + [["const", c] for c in CONSTS + ["d", "e"]]
        old, new = draw(st.sampled_from(names)), draw(st.sampled_from(names))
        target = draw(st.sampled_from(["line", "line", "scope", "generic"]))
        dummy = Prover(draw, logic, 0)

        def swap(f):
            return dummy.replace(f, old, new)

        if target == "generic" or line[0] == "t":
            boxes = [p for p in where if scope_at(lines, p)[p[-1]][0] == "t"]
            if boxes:
                p = draw(st.sampled_from(boxes))
                inside = scope_at(lines, p)
                old = inside[p[-1]][2]
                inside[p[-1]][2] = new
                if draw(st.booleans()):
                    map_formulas(inside, swap)
        elif target == "line" and line[0] == "f":
            line[2] = norm(swap(line[2]))
        else:
            map_formulas(scope, swap)
    return {"logic": logic, "proof": lines}


def tidy(lines):
    """The first line of a box has the row of the box; no box is empty."""
    out = []
    for line in lines:
        if line[0] == "b":
            inner = tidy(line[2])
            if not inner or all(x[0] == "t" for x in inner):
                continue
            first = inner[0]
            if first[1] != line[1]:
                first = [first[0], line[1]] + first[2:]
                inner[0] = first
            out.append(["b", line[1], inner])
        else:
            out.append(line)
    return out


@st.composite
def mutated(draw, logic, most=2):
    """A correct proof, after a few changes."""
    case = draw(correct(logic))
    for _ in range(draw(st.integers(1, most))):
        case = mutate(draw, case)
    case["proof"] = tidy(case["proof"])
    if not case["proof"]:
        case["proof"] = [["f", 1, ["tt"], "premise", []]]
    return case


# -- proofs that are close to the side conditions of the rules of the quantifiers ------------


def _subst_or_same(f, x, a):
    try:
        return norm(subst(f, x, a))
    except Capture:
        return f


@st.composite
def quantified(draw):
    """A proof around a rule of a quantifier, whose side condition may be violated."""
    names = [["var", v] for v in VARS[:2]] + [["const", c] for c in CONSTS[:2]]
    few = dict(variables=("x", "y"), constants=("a",))

    def small(fuel=1):
        return norm(draw(fol_formula(draw(st.integers(0, fuel)), constants_too=False, **few)))

    def name():
        return draw(st.sampled_from(names))

    x = draw(st.sampled_from(VARS[:2]))
    phi = small()
    a, b = name(), name()
    t = draw(st.one_of(st.sampled_from(names), fol_term(fuel=1, **few)))
    kind = draw(st.sampled_from(["forall_i", "forall_i", "exists_e", "exists_e", "forall_e", "exists_i", "exists_e cite"]))
    lines, row = [], 0

    def add(f, rule, *cites):
        nonlocal row
        row += 1
        lines.append(["f", row, norm(f), rule, list(cites)])
        return row

    for _ in range(draw(st.integers(0, 1))):
        add(small(), "premise")
    if kind in ("forall_e", "exists_i"):
        f, g = [{"forall_e": "forall", "exists_i": "exists"}[kind], x, phi], _subst_or_same(phi, x, t)
        if draw(st.integers(0, 3)) == 3:
            g = edit_formula(draw, "fol", g, [phi])
        if kind == "forall_e":
            add(g, kind, add(f, "premise"))
        else:
            add(f, kind, add(g, "premise"))
    elif kind == "forall_i":
        source = draw(st.sampled_from(["forall", "premise", "both"]))
        cites = []
        if source != "premise":
            cites.append((add(["forall", x, phi], "premise"), _subst_or_same(phi, x, a), "forall_e"))
        if source != "forall":
            psi = _subst_or_same(small(), x, a)
            cites.append((add(psi, "premise"), psi, "copy"))
        row += 1
        start = row
        box = [["t", start, a]]
        for i, (c, f, rule) in enumerate(cites):
            if i:
                row += 1
            box.append(["f", row, norm(f), rule, [c]])
        if len(cites) == 2:
            row += 1
            box.append(["f", row, norm(["and", box[1][2], box[2][2]]), "and_i", [box[1][1], box[2][1]]])
        if draw(st.integers(0, 5)) == 5:
            box[1][3], box[1][4] = "assumption", []
        lines.append(["b", start, box])
        y = draw(st.sampled_from(VARS))
        last = box[-1][2]
        dummy = Prover(draw, "fol", 0)
        theta = dummy.generalise(last, y, a, ()) if draw(st.booleans()) else dummy.replace(last, a, ["var", y])
        if draw(st.integers(0, 5)) == 5:
            theta = edit_formula(draw, "fol", norm(theta), [phi])
        add(["forall", y, theta], "forall_i", start)
    else:
        c = add(["exists", x, phi], "premise")
        psi = small()
        d = add(psi, "premise") if draw(st.booleans()) else None
        row += 1
        start = row
        f = _subst_or_same(phi, x, a)
        if draw(st.integers(0, 5)) == 5:
            f = edit_formula(draw, "fol", f, [phi])
        box = [["t", start, a], ["f", start, f, "assumption", []]]
        if d is not None and draw(st.booleans()):
            row += 1
            box.append(["f", row, norm(["and", f, psi]), "and_i", [start, d]])
        if draw(st.integers(0, 1)):
            last = box[-1]
            dummy = Prover(draw, "fol", 0)
            y = draw(st.sampled_from(VARS))
            row += 1
            box.append(["f", row, norm(["exists", y, dummy.generalise(last[2], y, draw(st.sampled_from([a, b])), ())]), "exists_i", [last[1]]])
        lines.append(["b", start, box])
        chi = box[-1][2]
        if draw(st.integers(0, 5)) == 5:
            chi = edit_formula(draw, "fol", chi, [phi])
        if kind == "exists_e":
            add(chi, "exists_e", c, start)
        else:
            # other uses of the box
            rule = draw(st.sampled_from(["forall_i", "exists_e", "impl_i", "copy"]))
            cites = [start] if rule != "exists_e" else [draw(st.sampled_from([c, d or c, start])), start]
            g = ["forall", x, _subst_or_same(chi, a[1], ["var", x])] if rule == "forall_i" else chi
            add(g, rule, *cites)
    return {"logic": "fol", "proof": tidy(lines)}


# -- enumerations of single steps --------------------------------------------------------------


def _a(n):
    return ["atom", n]


def step_pool(tier):
    p, q, r = _a("p"), _a("q"), _a("r")
    np, nq = ["not", p], ["not", q]
    pool = [
        p, q, np, ["ff"], ["and", p, q], ["or", p, q], ["or", np, q], ["implies", p, q], ["not", ["or", p, q]],
        ["or", ["not", q], np], ["and", p, np],
    ]
    if tier == "thorough":
        pool += [nq, ["tt"], ["and", q, p], ["or", q, p], ["implies", q, p], ["or", nq, p], ["and", p, q, r], ["or", p, q, r], ["iff", p, q], ["implies", p, q, r]]
    out = []
    for f in map(norm, pool):
        if f not in out:
            out.append(f)
    return out


def single_steps(tier):
    """Two premises and a step, for each rule and each citation."""
    pool = step_pool(tier)
    for f in pool:
        for g in pool:
            for h in pool:
                for rule in RULES["pl"]:
                    for cites in ([1, 2], [1]) if f != g else ([1, 2],):
                        yield {"logic": "pl", "proof": [
                            ["f", 1, f, "premise", []], ["f", 2, g, "premise", []], ["f", 3, h, rule, list(cites)],
                        ]}


def box_steps(tier):
    """A box and a step that cites it; the last line of the box is derived with each rule."""
    pool = step_pool(tier)
    for f in pool:
        for g in pool:
            for how in (["copy", [1]], ["copy", [2]], ["and_e1", [2]], ["or_i1", [2]], ["or_i2", [2]], ["neg_e", [2, 1]], ["impl_e", [2, 1]]):
                for z in pool:
                    box = [["f", 2, g, "assumption", []], ["f", 3, z, how[0], how[1]]]
                    start = [["f", 1, f, "premise", []], ["b", 2, box]]
                    if reference(start) is False:
                        continue  # wrong, whatever follows
                    for rule in ("impl_i", "neg_i", "or_e"):
                        for h in pool:
                            yield {"logic": "pl", "proof": start + [["f", 4, h, rule, [2] if rule != "or_e" else [1, 2, 2]]]}
                    # the lines of a closed box
                    for h in (z, g):
                        for rule, cites in (("copy", [3]), ("copy", [2]), ("and_i", [2, 3]), ("dneg_i", [3]), ("or_i1", [2])):
                            yield {"logic": "pl", "proof": start + [["f", 4, h, rule, cites]]}


def more_steps(tier):
    """Steps with superfluous citations: none of them makes up for a wrong one."""
    p, q, r = _a("p"), _a("q"), _a("r")
    pool = [p, q, ["not", p], ["or", ["not", p], q], ["and", p, q], ["ff"]]
    one = {"and_e1": 1, "and_e2": 1, "bot_e": 1, "copy": 1, "dneg_e": 1, "dneg_i": 1, "or_i1": 1, "or_i2": 1}
    for f in pool:
        for g in pool:
            for h in pool + [["or", p, q], ["and", q, p]]:
                for rule in sorted(one):
                    yield {"logic": "pl", "proof": [
                        ["f", 1, f, "premise", []], ["f", 2, g, "premise", []], ["f", 3, h, rule, [1, 2]],
                    ]}
                for rule in ("and_i", "impl_e", "MT", "neg_e"):
                    for cites in ([1, 2, 3], [3, 1, 2]):
                        yield {"logic": "pl", "proof": [
                            ["f", 1, f, "premise", []], ["f", 2, g, "premise", []], ["f", 3, r, "premise", []],
                            ["f", 4, h, rule, cites],
                        ]}
    # two boxes
    pool = [p, q, ["not", p], ["ff"]]
    for a in pool:
        for b in pool:
            start = [["f", 1, p, "premise", []], ["b", 2, [["f", 2, a, "assumption", []]]], ["b", 3, [["f", 3, b, "assumption", []]]]]
            start += [["b", 4, [["f", 4, a, "assumption", []], ["f", 5, p, "copy", [1]]]]]
            for x in (2, 3, 4):
                for y in (1, 2, 3, 4):
                    for rule in ("impl_i", "neg_i"):
                        for f, z in ((a, b), (b, a), (a, p), (a, a)):
                            h = norm(["or", ["not", f], z]) if rule == "impl_i" else negate(f)
                            yield {"logic": "pl", "proof": start + [["f", 6, h, rule, [x, y]]]}
                            yield {"logic": "pl", "proof": start + [["f", 6, h, rule, [y, x]]]}
            for h in (a, b, p):
                for x in (2, 3, 4):
                    for y in (2, 3, 4):
                        yield {"logic": "pl", "proof": [["f", 0, norm(["or", a, b]), "premise", []]] + start + [
                            ["f", 6, h, "or_e", [0, x, y, 4]],
                        ]}


def copy_steps(tier):
    """Steps from a formula to another one, which may differ in a term only."""
    x, y, a = ["var", "x"], ["var", "y"], ["const", "a"]
    terms = [x, y, a, ["fun", "f", [x]], ["fun", "f", [y]], ["fun", "f", [a]], ["fun", "g", [x, y]], ["fun", "g", [y, x]], ["fun", "f", [["fun", "f", [x]]]]]
    pool = [["pred", "A", []]] + [["pred", "P", [t]] for t in terms] + [["pred", "R", [s, t]] for s in terms[:6:2] for t in terms]
    pool += [["pred", "T", [s, t, u]] for s in (x, y) for t in (x, y) for u in (x, y)] + [["pred", "R", [x]], ["pred", "P", []], ["pred", "P", [x, y]]]
    pool += [[q, v, ["pred", "R", [x, y]]] for q in ("forall", "exists") for v in ("x", "y")]
    z = ["pred", "Q", [["var", "z"]]]
    n = 0
    for f in pool:
        for g in pool:
            n += 1
            how = n % 7
            if how < 3:
                steps = [["f", 2, g, ["copy", "dneg_i", "dneg_e"][how], [1]]]
            elif how == 3:
                steps = [["f", 2, ["or", g, z], "or_i1", [1]]]
            elif how == 4:
                steps = [["f", 2, ["not", g], "premise", []], ["f", 3, ["ff"], "neg_e", [1, 2]]]
            elif how == 5:
                steps = [["f", 2, ["or", ["not", g], z], "premise", []], ["f", 3, z, "impl_e", [1, 2]]]
            else:
                steps = [["f", 2, ["implies", z, ["not", g]], "premise", []], ["f", 3, ["not", z], "MT", [2, 1]]]
            yield {"logic": "fol", "proof": [["f", 1, f, "premise", []]] + steps}


def case_steps(tier):
    """Eliminations of a disjunction."""
    p, q, r = _a("p"), _a("q"), _a("r")
    pool = [p, q, ["not", p], ["or", p, q]] + ([["or", q, p], ["ff"], r] if tier == "thorough" else [])
    ors = [["or", p, q], ["or", ["not", p], q], ["or", q, p], p, ["and", p, q]]

    def how(x, z):
        """The rule that gives z from x."""
        if z == x:
            return "copy"
        if z[0] == "or" and x in z[1:]:
            return "or_i1" if z[1] == x else "or_i2"
        return "bot_e" if x == ["ff"] else None

    for f in ors:
        for a in pool:
            for b in pool:
                for za in pool:
                    for zb in pool:
                        if how(a, za) is None or how(b, zb) is None:
                            continue
                        for h in pool:
                            yield {"logic": "pl", "proof": [
                                ["f", 1, norm(f), "premise", []],
                                ["b", 2, [["f", 2, norm(a), "assumption", []], ["f", 3, norm(za), how(a, za), [2]]]],
                                ["b", 4, [["f", 4, norm(b), "assumption", []], ["f", 5, norm(zb), how(b, zb), [4]]]],
                                ["f", 6, norm(h), "or_e", [1, 2, 4]],
                            ]}


def quantifier_steps(tier):
    """One quantifier rule, for all the quantified formulae and instances of a small pool."""
    terms = [["var", "x"], ["var", "y"], ["const", "a"]]
    if tier == "thorough":
        terms += [["fun", "f", [["var", "y"]]], ["var", "z"]]
    atoms = [["pred", "R", [s, t]] for s in terms for t in terms]
    bodies = atoms + [[q, v, f] for q in ("forall", "exists") for v in ("x", "y") for f in atoms]
    for rule, q in (("forall_e", "forall"), ("exists_i", "exists")):
        for v in ("x", "y"):
            for f in bodies:
                for g in bodies:
                    if f[0] != g[0]:
                        continue
                    one, two = (([q, v, f], g) if rule == "forall_e" else (g, [q, v, f]))
                    yield {"logic": "fol", "proof": [["f", 1, one, "premise", []], ["f", 2, two, rule, [1]]]}


def generic_steps(tier):
    """One generic box, for all the small choices of its term, its content, and what is visible outside."""
    names = [["var", "x"], ["var", "y"], ["const", "a"]]
    atoms = [["pred", "R", [s, t]] for s in names for t in names]
    for a in names:
        for f in atoms:
            for v in ("x", "y"):
                try:
                    g = subst(f, v, a)
                except Capture:
                    continue
                for h in atoms:
                    for w in ("x", "y"):
                        yield {"logic": "fol", "proof": [
                            ["f", 1, ["forall", v, f], "premise", []],
                            ["b", 2, [["t", 2, a], ["f", 2, g, "forall_e", [1]]]],
                            ["f", 3, ["forall", w, h], "forall_i", [2]],
                        ]}
                    yield {"logic": "fol", "proof": [
                        ["f", 1, ["exists", v, f], "premise", []],
                        ["b", 2, [["t", 2, a], ["f", 2, g, "assumption", []], ["f", 3, ["exists", "z", h], "exists_i", [2]]]],
                        ["f", 4, ["exists", "z", h], "exists_e", [1, 2]],
                    ]}
                    yield {"logic": "fol", "proof": [
                        ["f", 1, ["exists", v, f], "premise", []], ["f", 2, h, "premise", []],
                        ["b", 3, [["t", 3, a], ["f", 3, g, "assumption", []], ["f", 4, h, "copy", [2]]]],
                        ["f", 5, h, "exists_e", [1, 3]],
                    ]}
                yield {"logic": "fol", "proof": [
                    ["f", 1, ["exists", v, f], "premise", []],
                    ["b", 2, [["t", 2, a], ["f", 2, g, "assumption", []]]],
                    ["f", 3, g, "exists_e", [1, 2]],
                ]}


def namesakes(tier):
    """Generic boxes and quantifiers, around functions and predicates with the name of the generic term or of the variable."""
    for a in (["const", "a"], ["var", "x"], ["var", "y"]):
        for name in ("a", "x", "y"):
            others = [["const", "b"], ["var", "z"]] + ([a] if tier == "thorough" else [])
            for u in others:
                t = ["fun", name, [u]]
                for form in (lambda w: ["pred", "P", [w]], lambda w: ["pred", "P", [["fun", "f", [w]]]], lambda w: ["pred", name, [w]],
                             lambda w: ["pred", "R", [["fun", name, [u]], w]]):
                    for v in ("x", "z"):
                        if u == ["var", v]:
                            continue
                        try:
                            f = form(["var", v])
                            g, h = subst(f, v, a), subst(f, v, t)
                        except Capture:
                            continue
                        yield {"logic": "fol", "proof": [
                            ["f", 1, ["forall", v, f], "premise", []], ["f", 2, h, "forall_e", [1]],
                            ["b", 3, [["t", 3, a], ["f", 3, g, "forall_e", [1]]]],
                            ["f", 4, ["forall", v, f], "forall_i", [3]],
                        ]}
                        yield {"logic": "fol", "proof": [
                            ["f", 1, ["exists", v, f], "premise", []], ["f", 2, h, "premise", []],
                            ["b", 3, [["t", 3, a], ["f", 3, g, "assumption", []], ["f", 4, h, "copy", [2]]]],
                            ["f", 5, h, "exists_e", [1, 3]],
                        ]}
                        yield {"logic": "fol", "proof": [
                            ["f", 1, ["exists", v, f], "premise", []],
                            ["b", 2, [["t", 2, a], ["f", 2, g, "assumption", []], ["f", 3, ["exists", v, f], "exists_i", [2]]]],
                            ["f", 4, ["exists", v, f], "exists_e", [1, 2]],
                        ]}
                        for one, two in ((g, h), (h, g)):
                            yield {"logic": "fol", "proof": [["f", 1, one, "premise", []], ["f", 2, ["exists", v, f], "exists_i", [1]]]}
                            yield {"logic": "fol", "proof": [["f", 1, one, "premise", []], ["f", 2, two, "copy", [1]]]}
                            yield {"logic": "fol", "proof": [
                                ["f", 1, ["forall", v, f], "premise", []], ["f", 2, ["not", one], "premise", []],
                                ["f", 3, two, "forall_e", [1]], ["f", 4, ["ff"], "neg_e", [3, 2]],
                            ]}


def padded(lines, n, boxes):
    """The lines after n others, which are premises, closed boxes, or both."""
    ahead = []
    for i in range(n):
        f = ["pred", "M%d" % i, []]
        if boxes and i % boxes == 0:
            ahead.append(["b", 1000 + i, [["t", 1000 + i, ["var", "m"]], ["f", 1000 + i, f, "assumption", []]]])
        else:
            ahead.append(["f", 1000 + i, f, "premise", []])
    return ahead + lines


def far_steps(tier):
    """Generic boxes in long proofs; the generic term may occur in a line that is far away."""
    u, c = ["var", "u"], ["const", "c"]
    P = lambda s: ["pred", "P", [s]]
    every = ["forall", "x", P(["var", "x"])]
    for t in (u, c):
        far = [
            P(t), ["not", P(t)], ["or", P(t), ["pred", "A", []]], ["forall", "y", ["pred", "R", [["var", "y"], t]]], P(["fun", "f", [t]]), ["implies", P(t), every],
            ["iff", ["pred", "A", []], P(t)], ["and", ["pred", "A", []], ["not", ["exists", "z", P(t)]]], ["pred", "R", [["const", "d"], ["fun", "g", [["const", "d"], t]]]], P(["var", "w"]),
        ]
        for f in far:
            for n in (0, 1, 2, 5, 9, 12, 16, 20, 40, 100):
                for m in (0, 1, 7, 20):
                    for boxes in (0, 1, 2):
                        lines = [["f", 1, f, "premise", []], ["f", 2, every, "premise", []]]
                        lines = padded(lines, n, boxes) if (n + m) % 3 else lines + padded([], n, boxes)
                        lines += [["f", 3 + i, every, "copy", [2]] for i in range(m)]
                        box = ["b", 50, [["t", 50, t], ["f", 50, P(t), "forall_e", [2]]]]
                        end = ["f", 60, every, "forall_i", [50]]
                        if m == 1:
                            # from what is far
                            box = ["b", 50, [["t", 50, t], ["f", 50, f, "copy", [1]]]]
                            g = subst_term_in(f, t, ["var", "x"])
                            end = ["f", 60, ["forall", "x", g], "forall_i", [50]]
                        if m == 7:
                            # inside a box
                            lines = [lines[-1] if lines[-1][0] == "b" else ["f", 99, ["pred", "N", []], "premise", []]] + lines
                            yield {"logic": "fol", "proof": unique(lines) + [["b", 70, [["f", 70, ["pred", "K", []], "assumption", []], box, end]]]}
                            continue
                        yield {"logic": "fol", "proof": unique(lines) + [box, end]}


def unique(lines):
    """Without the lines whose row is there already."""
    out, seen = [], set()
    for line in lines:
        if line[1] not in seen:
            seen.add(line[1])
            out.append(line)
    return out


def subst_term_in(f, old, new):
    """The formula, with another term."""
    if f[0] == "pred":
        return ["pred", f[1], [_other_term(s, old, new) for s in f[2]]]
    if f[0] in ("forall", "exists"):
        return [f[0], f[1], subst_term_in(f[2], old, new)]
    return [f[0]] + [subst_term_in(x, old, new) for x in f[1:]]


def _other_term(s, old, new):
    if s == old:
        return new
    return ["fun", s[1], [_other_term(x, old, new) for x in s[2]]] if s[0] == "fun" else s


# -- instances of the rules, and what is close to them ---------------------------------------


def metavariables(tier):
    """Values of the metavariables of the rules."""
    p, q, r = _a("p"), _a("q"), _a("r")
    pool = [
        p, q, ["not", p], ["and", p, q], ["or", p, q], ["or", ["not", p], q], ["not", ["or", p, q]], ["not", ["and", p, q]], ["implies", p, q],
        ["iff", p, q], ["and", p, ["or", q, r]], ["or", p, ["and", q, r]], ["not", ["implies", p, q]],
    ]
    if tier == "thorough":
        pool += [["and", p, q, r], ["or", p, q, r], ["implies", p, q, r], ["not", ["iff", p, q]], ["implies", ["not", p], r], ["tt"], ["ff"], ["and", ["not", p], ["not", q]]]
    return pool


def variants(f, others):
    """Formulae close to a formula."""
    kids = children(f)
    yield negate(f)
    yield ["ff"]
    yield from kids
    dual = {"and": "or", "or": "and", "implies": "iff", "iff": "implies"}
    if f[0] in dual:
        yield [dual[f[0]]] + kids
        yield [f[0]] + kids[::-1]
        for i in range(len(kids)):
            yield [f[0]] + kids[:i] + [negate(kids[i])] + kids[i + 1:]
            if len(kids) > 2:
                yield [f[0]] + kids[:i] + kids[i + 1:]
        yield [dual[f[0]]] + list(map(negate, kids))
        yield negate([f[0]] + list(map(negate, kids)))
    if f[0] == "not":
        for g in children(f[1]):
            yield g
            yield negate(g)
        if f[1][0] in dual:
            yield [f[1][0]] + list(map(negate, children(f[1])))
            yield [dual[f[1][0]]] + list(map(negate, children(f[1])))
    for g in others:
        yield g
        yield ["and", f, g]
        yield ["or", g, f]
        yield ["implies", g, f]
        yield ["or", ["not", f], g]


def instance_of(rule, a, b, c, form):
    """An instance of the rule: the formulae of its premises, of its boxes, and its conclusion."""
    arrow = lambda x, y: imp(norm(x), norm(y))[form]
    no = lambda x: ["not", x]
    return {
        "and_i": ([a, b], [], ["and", a, b]), "and_e1": ([["and", a, b]], [], a), "and_e2": ([["and", a, b]], [], b),
        "or_i1": ([a], [], ["or", a, b]), "or_i2": ([b], [], ["or", a, b]), "impl_e": ([a, arrow(a, b)], [], b),
        "MT": ([arrow(a, b), no(b)], [], no(a)), "neg_e": ([a, no(a)], [], ["ff"]), "bot_e": ([["ff"]], [], a), "copy": ([a], [], a),
        "dneg_i": ([a], [], a), "dneg_e": ([a], [], a), "impl_i": ([], [(a, b)], arrow(a, b)), "neg_i": ([], [(a, ["ff"])], no(a)),
        "or_e": ([["or", a, b]], [(a, c), (b, c)], c),
    }[rule]


def rule_proof(rule, given, boxes, conclusion):
    """The proof that applies the rule once; what a box ends with is a premise of the proof."""
    lines, cites, row = [], [], 0
    for f in given:
        row += 1
        lines.append(["f", row, norm(f), "premise", []])
        cites.append(row)
    known = []
    for _, z in boxes:
        row += 1
        lines.append(["f", row, norm(z), "premise", []])
        known.append(row)
    for (a, z), k in zip(boxes, known):
        row += 1
        cites.append(row)
        lines.append(["b", row, [["f", row, norm(a), "assumption", []], ["f", row + 1, norm(z), "copy", [k]]]])
        row += 1
    lines.append(["f", row + 1, norm(conclusion), rule, cites])
    return {"logic": "pl", "proof": lines}


def schemas(tier):
    """Instances of each rule over composite formulae, with no component, one or two of them changed."""
    pool = metavariables(tier)
    n = 0
    for rule in RULES["pl"]:
        # the last operand matters to few rules
        for i, a in enumerate(pool):
            for j, b in enumerate(pool):
                c = pool[(i + 2 * j + 3) % len(pool)]
                form = (i + j) % 2
                given, boxes, conclusion = instance_of(rule, a, b, c, form)
                yield rule_proof(rule, given, boxes, conclusion)
                # the lines cited in another order, once more, or not at all
                cites = len(given) + len(boxes)
                orders = [o for k in range(1, 4) for o in itertools.product(range(cites), repeat=k) if o != tuple(range(cites))]
                for k, order in enumerate(orders):
                    if tier == "thorough" or len(order) == cites and len(set(order)) == cites or (i + 3 * j + k) % 13 == 0:
                        yield recited(rule_proof(rule, given, boxes, conclusion), order)
                # the components: premises, ends of the boxes, conclusion
                whole = list(given) + [x for box in boxes for x in box] + [conclusion]
                for k in range(len(whole)):
                    for f in variants(norm(whole[k]), [pool[(i + 5) % len(pool)], pool[(j + 3) % len(pool)]]):
                        n += 1
                        if n % (2 if tier == "thorough" else 9):
                            continue
                        new = list(whole)
                        new[k] = f
                        if n % 4 == 0:
                            # another component, changed in the same way
                            m = (k + 1) % len(whole)
                            again = list(variants(norm(whole[m]), [f]))
                            new[m] = again[n % len(again)]
                        g = len(given)
                        pairs = [tuple(new[g + 2 * t:g + 2 * t + 2]) for t in range(len(boxes))]
                        yield rule_proof(rule, new[:g], pairs, new[-1])


def recited(case, order):
    """The last line cites its lines in another order."""
    last = case["proof"][-1]
    return dict(case, proof=case["proof"][:-1] + [last[:4] + [[last[4][i] for i in order]]])


# -- proofs within boxes ---------------------------------------------------------------------------


def boxed(lines, logic, row, kind):
    """A box that begins with an unused assumption, a generic term, or both."""
    f = ["atom", "m%d" % row] if logic == "pl" else ["pred", "M", [["var", "m%d" % row]]] if kind == "term" else ["pred", "M%d" % row, []]
    opening = [["f", row, f, "assumption", []]]
    if kind == "term" and logic == "fol":
        opening = [["t", row, ["var", "m%d" % row]]] + opening
    return ["b", row, opening + lines]


def within(case, layout):
    """The steps of the proof after its premises, in boxes; None if there are none."""
    logic, lines = case["logic"], case["proof"]
    n = 0
    while n < len(lines) and lines[n][0] == "f" and lines[n][3] == "premise":
        n += 1
    premises, steps, last = lines[:n], lines[n:-1], lines[-1:]
    if n == len(lines) or any(x[0] == "f" and x[3] == "premise" for x in lines[n:]) or lines[0][0] == "t":
        return None
    top = max([r for r in rows(lines) if isinstance(r, int)] + [0]) + 100
    kind = "term" if layout % 2 else "formula"
    box = lambda xs, i: boxed(xs, logic, top + 10 * i, kind)
    layout //= 2
    if layout == 0:
        steps = steps + [box(last, 1)]
    elif layout == 1:
        steps = steps + [box([box(last, 2)], 1)]
    elif layout == 2:
        steps = [box(steps + last, 1)]
    elif layout == 3:
        steps = [box(steps + [box(last, 2)], 1)]
    elif layout == 4:
        steps = [box([box(steps, 2)] + last, 1)]
    elif layout == 5:
        steps = [box(steps, 1)] + last
    elif layout == 6:
        steps = steps + [box([], 1), box([box([], 3)] + last, 2)]
    elif layout == 7:
        steps = steps + [box([box([box(last, 3)], 2)], 1)]
    else:
        steps = [box(steps + [box([], 2), box([box([], 4)] + last, 3)], 1)]
    return {"logic": logic, "proof": premises + steps}


def nested(every, *sources):
    """Some of the cases of an enumeration, within boxes."""
    def cases(tier):
        i = 0
        for source in sources:
            for case in source(tier):
                i += 1
                if i % (every if tier == "quick" else max(1, every // 6)) == 0:
                    new = within(case, i // every % 18)
                    if new is not None:
                        yield new

    return cases


def correct_nested(*sources):
    """The cases that the reference finds correct, within boxes."""
    def cases(tier):
        i = 0
        for source in sources:
            for case in source(tier):
                i += 1
                if (tier == "thorough" or i % 3 == 0) and reference(case["proof"]) is True:
                    for layout in (i % 18, (i + 7) % 18, (i + 13) % 18) if tier == "thorough" else (i // 3 % 18,):
                        new = within(case, layout)
                        if new is not None:
                            yield new

    return cases


# -- operators with many operands ----------------------------------------------------------------


def _unique(fs):
    out = []
    for f in map(norm, fs):
        if f not in out:
            out.append(f)
    return out


def wide_steps(tier):
    """Steps about operators with many operands."""
    z = _a("z")
    for n in (3, 5, 9) if tier == "thorough" else (3, 5):
        ops = [_a("p%d" % i) for i in range(n)]
        for op in ("and", "or", "implies", "iff"):
            w = norm([op] + ops)
            other = {"and": "or", "or": "and", "implies": "iff", "iff": "implies"}[op]
            pool = _unique([
                w, ops[0], ops[1], ops[-1], ["not", w], ["not", ops[0]], [op] + ops[:-1], [op] + ops[1:], [op] + ops[:-1] + [z],
                [op, ops[1], ops[0]] + ops[2:], [other] + ops, ["not", [other] + ops], ["or"] + [["not", x] for x in ops],
                ["and"] + [["not", x] for x in ops], z, ["ff"],
            ])
            for f in pool:
                for h in pool:
                    for rule in ("and_e1", "and_e2", "or_i1", "or_i2", "copy", "dneg_i", "dneg_e", "bot_e"):
                        yield {"logic": "pl", "proof": [["f", 1, f, "premise", []], ["f", 2, h, rule, [1]]]}
            small = _unique([w, ["not", w], ops[0], ops[-1], ["or", ["not", w], z], ["implies", w, z], z, ["not", z], [op] + ops[:-1]])
            ends = _unique(small + [["and", w, z], ["and", z, w], ["and", w, ops[0]], ["implies", ops[0], z], ["ff"]])
            for f in small:
                for g in small:
                    for h in ends:
                        for rule in ("and_i", "impl_e", "MT", "neg_e"):
                            yield {"logic": "pl", "proof": [
                                ["f", 1, f, "premise", []], ["f", 2, g, "premise", []], ["f", 3, h, rule, [1, 2]],
                            ]}
            # boxes
            for g in small:
                for last in (z, ["ff"], w):
                    for h in _unique([
                        ["implies", g, last], ["or", ["not", g], last], ["not", g], ["not", ops[0]], ["not", ops[-1]], ["implies", ops[0], last],
                        ["or", ["not", ops[0]], last], ["implies", last, g], [other] + ops, ["not", [other] + ops], ["implies", g, z], ["or", ["not", g], z],
                        ["or"] + [["not", x] for x in ops], ["or", ["not", w], last], ["not", w],
                    ]):
                        for rule in ("impl_i", "neg_i"):
                            yield {"logic": "pl", "proof": [
                                ["f", 1, last, "premise", []], ["b", 2, [["f", 2, g, "assumption", []], ["f", 3, last, "copy", [1]]]],
                                ["f", 4, h, rule, [2]],
                            ]}
                # what the box proves is not known outside
                for h in _unique([["not", x] for x in (g, w, ops[0], ops[1], ops[-1], [op] + ops[:-1], [other] + ops)] + [["not", x] for x in children(g)[:1]]):
                    yield {"logic": "pl", "proof": [
                        ["f", 1, norm(["not", g]), "premise", []], ["b", 2, [["f", 2, g, "assumption", []], ["f", 3, ["ff"], "neg_e", [2, 1]]]],
                        ["f", 4, h, "neg_i", [2]],
                    ]}
                for x in _unique([g, w, ops[0], ops[-1], [op] + ops[:-1], [other] + ops, z]):
                    for h in (norm(["implies", x, _a("end")]), norm(["or", ["not", x], _a("end")]), norm(["implies", _a("end"), x])):
                        yield {"logic": "pl", "proof": [
                            ["f", 1, norm(["implies", g, _a("end")]), "premise", []],
                            ["b", 2, [["f", 2, g, "assumption", []], ["f", 3, _a("end"), "impl_e", [2, 1]]]], ["f", 4, h, "impl_i", [2]],
                        ]}
            # cases: the disjunction, and what the boxes assume
            cases = _unique([ops[0], ops[1], ops[-1], [op] + ops[1:], [op] + ops[:-1], w, z])
            for f in _unique([w, [op] + ops[:-1], ["or", ops[0], z], ["or", w, z]]):
                for one in cases:
                    for two in cases:
                        end = ["or", z, ops[0]]
                        yield {"logic": "pl", "proof": [
                            ["f", 1, f, "premise", []], ["f", 2, norm(end), "premise", []],
                            ["b", 3, [["f", 3, one, "assumption", []], ["f", 4, norm(end), "copy", [2]]]],
                            ["b", 5, [["f", 5, two, "assumption", []], ["f", 6, norm(end), "copy", [2]]]],
                            ["f", 7, norm(end), "or_e", [1, 3, 5]],
                        ]}
                        # what the cases prove is not known otherwise
                        yield {"logic": "pl", "proof": [
                            ["f", 1, f, "premise", []], ["f", 2, ["implies", one, ["atom", "end"]], "premise", []],
                            ["f", 3, ["implies", two, ["atom", "end"]], "premise", []],
                            ["b", 4, [["f", 4, one, "assumption", []], ["f", 5, ["atom", "end"], "impl_e", [4, 2]]]],
                            ["b", 6, [["f", 6, two, "assumption", []], ["f", 7, ["atom", "end"], "impl_e", [6, 3]]]],
                            ["f", 8, ["atom", "end"], "or_e", [1, 4, 6]],
                        ]}


def wide_quantifiers(tier):
    """Quantifier rules over operators, predicates and functions with many operands."""
    x, y, a, b = ["var", "x"], ["var", "y"], ["const", "a"], ["const", "b"]
    fa, ga = ["fun", "f", [a]], ["fun", "f", [["fun", "f", [a]]]]
    for n in (3, 4, 5, 8) if tier == "thorough" else (3, 5):
        for shape in ("and", "or", "implies", "iff", "pred", "fun", "not", "deep"):
            def body(ts):
                if shape == "pred":
                    return ["pred", "R", ts]
                if shape == "fun":
                    return ["pred", "R", [["fun", "g", ts]]]
                if shape == "deep":
                    # one argument at each level
                    t = ts[0]
                    for u in ts[1:]:
                        t = ["fun", "h", [t, u]]
                    return ["pred", "R", [t]]
                if shape == "not":
                    f = ["not", ["pred", "P0", [ts[0]]]]
                    for i, u in enumerate(ts[1:]):
                        f = ["not", [("and", "or")[i % 2], f, ["pred", "P%d" % (i + 1), [u]]]]
                    return f
                return [shape] + [["pred", "P%d" % i, [t]] for i, t in enumerate(ts)]

            places = sorted({0, 1, n // 2, n - 1})

            def almost(t):
                yield [t] * n
                for i in places:
                    for u in (x, y, a, b, fa):
                        if u != t:
                            yield [t] * i + [u] + [t] * (n - i - 1)
                if t != x:
                    for i in range(1, n - 1):
                        yield [t] * i + [x] * (n - i)
                        yield [x] * i + [t] * (n - i)

            for t in (x, y, a, fa, ga):
                for pattern in [[x] * n] + [[x] * i + [u] + [x] * (n - i - 1) for i in places for u in (y, a, t) if u != x]:
                    for ts in almost(t):
                        for rule, q in (("forall_e", "forall"), ("exists_i", "exists")):
                            one, two = [q, "x", body(pattern)], body(ts)
                            lines = (one, two) if rule == "forall_e" else (two, one)
                            yield {"logic": "fol", "proof": [["f", 1, lines[0], "premise", []], ["f", 2, lines[1], rule, [1]]]}
            for t in (y, a):
                for ts in almost(x):
                    yield {"logic": "fol", "proof": [
                        ["f", 1, ["forall", "x", body([x] * n)], "premise", []],
                        ["b", 2, [["t", 2, t], ["f", 2, body([t] * n), "forall_e", [1]]]], ["f", 3, ["forall", "x", body(ts)], "forall_i", [2]],
                    ]}
                    for us in almost(t):
                        if ts != [x] * n and us != [t] * n and tier != "thorough":
                            continue
                        yield {"logic": "fol", "proof": [
                            ["f", 1, ["exists", "x", body(ts)], "premise", []],
                            ["b", 2, [["t", 2, t], ["f", 2, body(us), "assumption", []], ["f", 3, ["exists", "x", body([x] * n)], "exists_i", [2]]]],
                            ["f", 4, ["exists", "x", body([x] * n)], "exists_e", [1, 2]],
                        ]}
                for us in almost(t):
                    yield {"logic": "fol", "proof": [
                        ["f", 1, ["exists", "x", body([x] * n)], "premise", []], ["f", 2, body(us), "premise", []],
                        ["b", 3, [["t", 3, t], ["f", 3, body([t] * n), "assumption", []], ["f", 4, body(us), "copy", [2]]]],
                        ["f", 5, body(us), "exists_e", [1, 3]],
                    ]}
                    yield {"logic": "fol", "proof": [
                        ["f", 1, ["exists", "x", body([x] * n)], "premise", []],
                        ["b", 3, [["t", 3, t], ["f", 3, body([t] * n), "assumption", []], ["f", 4, body([t] * n), "copy", [3]]]],
                        ["f", 5, body(us), "exists_e", [1, 3]],
                    ]}


# -- substitutions, right and wrong ----------------------------------------------------------------


def _paths(node, path=()):
    """The places of the formulae and terms of a formula, itself included."""
    yield path
    if isinstance(node, list):
        for i, x in enumerate(node):
            if isinstance(x, list):
                yield from _paths(x, path + (i,))


def _naive(node, x, t, keep=None, bound=True, path=()):
    """Replace the variable wherever it is written, but in the subtree to keep, and, if told to, where it is bound."""
    if path == keep:
        return node
    if node == ["var", x]:
        return t
    if not isinstance(node, list):
        return node
    if node[0] in ("forall", "exists") and node[1] == x and not bound:
        return node
    return [_naive(n, x, t, keep, bound, path + (i,)) for i, n in enumerate(node)]


def substituted(phi, x, t):
    """What careful and careless substitutions of a term for a variable give."""
    out = [phi]
    for bound in (False, True):
        for keep in [None] + list(_paths(phi)):
            g = norm(_naive(phi, x, t, keep, bound))
            if g not in out:
                out.append(g)
    return out[1:] + out[:1]


def substitution_bodies(tier):
    x, y, z, a = ["var", "x"], ["var", "y"], ["var", "z"], ["const", "a"]
    fx, fy = ["fun", "f", [x]], ["fun", "f", [y]]
    P, R = lambda t: ["pred", "P", [t]], lambda s, t: ["pred", "R", [s, t]]
    more = [R(y, fx), R(a, x), P(fx), R(fx, fx), R(z, x)] if tier == "thorough" else []
    for atom in [P(x), R(x, y), R(x, x), R(fx, y), R(x, a)] + more:
        yield atom
        yield ["not", atom]
        for other in (["pred", "Q", [x]], ["pred", "Q", [y]]):
            for op in ("and", "or", "implies", "iff"):
                yield [op, atom, other]
                yield [op, other, atom]
        for q in ("forall", "exists"):
            for v in ("x", "y", "z"):
                yield [q, v, atom]
                yield ["not", [q, v, atom]]
                yield ["or", [q, v, atom], ["pred", "Q", [x]]]
                yield ["implies", ["pred", "Q", [x]], [q, v, ["not", atom]]]
                yield ["iff", [q, v, ["and", atom, ["pred", "Q", [x]]]], ["pred", "Q", [["var", v]]]]
                for w in ("x", "y", "z"):
                    yield [q, v, ["exists" if q == "forall" else "forall", w, atom]]


def substitutions(tier):
    """The rules of quantifiers, over what careful and careless substitutions give."""
    x, y, z, a = ["var", "x"], ["var", "y"], ["var", "z"], ["const", "a"]
    terms = [y, a, z, ["fun", "f", [y]], ["fun", "f", [a]], x, ["fun", "f", [x]], ["fun", "f", [["fun", "f", [z]]]]]
    fol = lambda *lines: {"logic": "fol", "proof": [list(line) for line in lines]}
    n = 0
    for phi in substitution_bodies(tier):
        phi = norm(phi)
        for t in terms:
            for k, g in enumerate(substituted(phi, "x", t)):
                n += 1
                yield fol(["f", 1, ["forall", "x", phi], "premise", []], ["f", 2, g, "forall_e", [1]])
                yield fol(["f", 1, g, "premise", []], ["f", 2, ["exists", "x", phi], "exists_i", [1]])
                if t[0] == "fun" or tier == "quick" and n % 2:
                    continue
                yield fol(
                    ["f", 1, g, "premise", []], ["b", 2, [["t", 2, t], ["f", 2, g, "copy", [1]]]], ["f", 3, ["forall", "x", phi], "forall_i", [2]]
                )
                yield fol(
                    ["f", 1, ["exists", "x", phi], "premise", []], ["b", 2, [["t", 2, t], ["f", 2, g, "assumption", []], ["f", 3, g, "copy", [2]]]],
                    ["f", 4, g, "exists_e", [1, 2]],
                )
                h = ["exists", "u", _naive_term(g, t, ["var", "u"])]
                yield fol(
                    ["f", 1, ["exists", "x", phi], "premise", []],
                    ["b", 2, [["t", 2, t], ["f", 2, g, "assumption", []], ["f", 3, h, "exists_i", [2]]]], ["f", 4, h, "exists_e", [1, 2]],
                )
                whole = norm(_naive(phi, "x", t, None, False))
                yield fol(
                    ["f", 1, ["forall", "x", phi], "premise", []], ["b", 2, [["t", 2, t], ["f", 2, whole, "forall_e", [1]]]],
                    ["f", 3, ["forall", "x", g], "forall_i", [2]],
                )


def _naive_term(node, old, new):
    if node == old:
        return new
    return [_naive_term(n, old, new) for n in node] if isinstance(node, list) else node


# -- the same proof, dressed in another way -----------------------------------------------------


def wrapped(lines, wraps, row):
    """The lines in nested boxes; each of 'wraps' is an assumption, a generic term, or both."""
    for term, f in reversed(wraps):
        row += 1
        opening = [["t", row, term]] if term else []
        if f:
            opening.append(["f", row, f, "assumption", []])
        elif lines and lines[0][0] == "f":
            # the first formula of a box has the row of its term
            lines = [lines[0][:1] + [row] + lines[0][2:]] + lines[1:]
        lines = [["b", row, opening + lines]]
    return lines


def box_endings(tier, logic="fol"):
    """Boxes that begin or end with a box, to be concluded from, or not."""
    if logic == "pl":
        p, q, r = _a("p"), _a("q"), _a("r")
    else:
        p, q, r = ["pred", "A", []], ["pred", "B", []], ["pred", "C", []]
    u, v, c = ["var", "u"], ["var", "v"], ["const", "c"]
    P = lambda s: ["pred", "P", [s]]
    every, some = ["forall", "x", P(["var", "x"])], ["exists", "x", P(["var", "x"])]
    plain = [[], [(None, r)], [(None, r), (None, q)], [(None, p)], [(None, r)] * 3]
    shapes = plain + [[(v, None)], [(v, r)], [(v, None), (None, r)], [(None, r), (v, None)]]
    start = [["f", 4, ["or", p, q], "premise", []]] + ([["f", 3, some, "premise", []]] if logic == "fol" else [])
    copies = [[["f", 30 + i, p, "copy", [10]] for i in range(n)] for n in (0, 1, 4, 15)]
    known = [["f", 5, r, "premise", []], ["f", 6, ["ff"], "premise", []]]

    def case(*lines):
        return {"logic": logic, "proof": list(lines)}

    for wraps in plain if logic == "pl" else shapes:
        for z in (["ff"], r, p):
            # the formula that the box is to give: assumed in its last box, or known
            for how in ("assumed", "known"):
                given = start + (known if how == "known" else [])
                inside = [] if how == "assumed" else [["f", 20, z, "copy", [{"ff": 6}.get(z[0], 5 if z == r else 10)]]]
                if how == "assumed":
                    inside = wrapped([], [(None, z)], 50)
                ends = wrapped(inside, wraps, 70)
                for more in copies:
                    for trail in ([], [["f", 60, p, "copy", [10]]]):
                        box = ["b", 10, [["f", 10, p, "assumption", []]] + more + ends + trail]
                        body = given + [box]
                        yield case(*body)
                        for phi in (p, r, z):
                            for h in imp(phi, z):
                                yield case(*body, ["f", 90, h, "impl_i", [10]])
                            yield case(*body, ["f", 90, negate(phi), "neg_i", [10]])
                        other = ["b", 100, [["f", 100, q, "assumption", []]] + ([["f", 101, z, "bot_e", [6]]] if how == "known" else [])]
                        for boxes in ([10, 100], [10, 10], [100, 100], [100, 10]):
                            for h in (z, q):
                                yield case(*body, other, ["f", 102, h, "or_e", [4] + boxes])
                        yield case(*body, ["f", 90, z, "copy", [10]])
                        yield case(*body, ["f", 90, z, "copy", [20]])
                if wraps and not (inside and z == p and how == "known"):
                    # a box whose first line is a box
                    box = ["b", 71, ends]
                    for h in imp(wraps[0][1] or p, z):
                        yield case(*given, box, ["f", 90, h, "impl_i", [71]])
                    yield case(*given, ["b", 110, [box]], ["f", 90, negate(wraps[0][1] or p), "neg_i", [110]])
        if logic == "pl":
            continue
        for t in (u, c):
            for second in ("forall_e", "assumption"):
                for z in (P(t), r, some):
                    for how in ("assumed", "known"):
                        given = start + (known[:1] if how == "known" else []) + ([["f", 2, every, "premise", []]] if second == "forall_e" else [])
                        opening = [["t", 10, t], ["f", 10, P(t), second, [2] if second == "forall_e" else []]]
                        last = ["f", 20, z] + (["copy", [10]] if z == P(t) else ["copy", [5]] if z == r else ["exists_i", [10]])
                        ends = wrapped(wrapped([], [(None, z)], 50) if how == "assumed" else [last], wraps, 70)
                        for trail in ([], [["f", 60, P(t), "copy", [10]]]):
                            body = given + [["b", 10, opening + ends + trail]]
                            yield case(*body)
                            for h in (every, ["forall", "x", z], ["forall", "x", r]):
                                yield case(*body, ["f", 90, h, "forall_i", [10]])
                            for h in (z, r, some):
                                yield case(*body, ["f", 90, h, "exists_e", [3, 10]])


def propositional_endings(tier):
    return box_endings(tier, "pl")


def relabel(lines, labels):
    """Rename the rows; the citations of rows that do not exist stay as they are."""
    out = []
    for line in lines:
        if line[0] == "b":
            out.append(["b", labels[line[1]], relabel(line[2], labels)])
        elif line[0] == "t":
            out.append(["t", labels[line[1]], line[2]])
        else:
            out.append(["f", labels[line[1]], line[2], line[3], [labels.get(c, c) for c in line[4]]])
    return out


def sort_rows(lines):
    found = []
    for r in rows(lines):
        if r not in found:
            found.append(r)
    return found


LABELS = {
    "same": lambda i: i,
    "shifted": lambda i: i + 1000,
    "negative": lambda i: -i - 1,
    "from minus five": lambda i: i - 5,
    "tens": lambda i: i * 10,
    "backwards": lambda i: 5000 - i,
    "scattered": lambda i: (i * 7919) % 10007,
    "large": lambda i: 10 ** 18 + i,
    "strings": lambda i: str(i + 1),
    "words": lambda i: "row %d" % i,
    "letters": lambda i: "abcdefghijklmnopqrstuvwxyz"[i // 2 % 26].upper() * (i // 52 + 1) if i % 2 else "abcdefghijklmnopqrstuvwxyz"[i // 2 % 26] * (i // 52 + 1),
    "blanks": lambda i: " " * i,
    "floats": lambda i: i + 0.5,
    "halves": lambda i: i / 2,
    "halves, backwards": lambda i: 2000 - i / 2,
}


def dress(draw, case, missing=False):
    """
    Make a proof longer, deeper, and number it in another way.

    With 'missing', a citation may be replaced with one that resembles a row.
    """
    logic, lines = case["logic"], copy.deepcopy(case["proof"])
    fresh = max([r for r in rows(lines) if isinstance(r, int)] + [0]) + 100
    if draw(st.integers(0, 2)) == 2:
        # premises, and boxes, that are not used
        ahead = []
        for i in range(draw(st.sampled_from([1, 2, 5, 9, 10, 12, 16, 20, 32, 50, 100]))):
            f = ["atom", "m%d" % i] if logic == "pl" else ["pred", "M%d" % i, []]
            ahead.append(["f", fresh, f, "premise", []])
            fresh += 1
        where = draw(st.sampled_from(["before", "before", "after", "among"]))
        if where == "before":
            lines = ahead + lines
        elif where == "after":
            lines = lines + ahead
        else:
            k = len([x for x in lines if x[0] == "f" and x[3] == "premise"])
            lines = lines[:k] + ahead + lines[k:]
    if draw(st.integers(0, 3)) == 3:
        cited = {str(c) for x in _lines_of(lines) if x[0] == "f" for c in x[4]}
        boxes = [x for x in _lines_of(lines) if x[0] == "b" and (missing or str(x[1]) not in cited)]
        scope = draw(st.sampled_from([lines] + [x[2] for x in boxes]))
        f = ["atom", "k"] if logic == "pl" else ["pred", "K", []]
        extra = [["f", fresh, f, "assumption", []]]
        for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
            extra = [["b", fresh, extra]]
            fresh += 1
            extra.insert(0, ["f", fresh, f, "assumption", []])
        scope += extra[1:]
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        where = [p for p in positions(lines) if scope_at(lines, p)[p[-1]][0] == "f"]
        if not where:
            break
        path = draw(st.sampled_from(where))
        scope, i = scope_at(lines, path), path[-1]
        chained = draw(st.booleans())
        cite = scope[i][1]
        extra = []
        for _ in range(draw(st.sampled_from([1, 2, 9, 10, 20, 49, 50, 64, 100, 130]))):
            extra.append(["f", fresh, scope[i][2], "copy", [cite]])
            cite = fresh if chained else cite
            fresh += 1
        scope[i + 1:i + 1] = extra
    depth = draw(st.sampled_from([0, 0, 1, 2, 3, 5, 8]))
    top = [x for x in lines if x[0] == "f" and x[3] == "premise"]
    rest = [x for x in lines if not (x[0] == "f" and x[3] == "premise")]
    if depth and rest:
        for d in range(depth):
            name = "n%d" % d if logic == "pl" else "N%d" % d
            f = ["atom", name] if logic == "pl" else ["pred", name, []]
            box = [["f", fresh, f, "assumption", []]]
            if logic == "fol" and draw(st.integers(0, 3)) == 3:
                box.insert(0, ["t", fresh, ["var", "n%d" % d]])
            rest = [["b", fresh, box + rest]]
            fresh += 1
        lines = top + rest
    order = sort_rows(lines)
    labels = dict(zip(order, range(1, len(order) + 1)))
    fn = LABELS[draw(st.sampled_from(sorted(LABELS)))]
    labels = {r: fn(i) for r, i in labels.items()}
    lines = relabel(lines, labels)
    if missing and draw(st.integers(0, 2)) == 2:
        cited = [x for x in _lines_of(lines) if x[0] == "f" and x[4]]
        if cited:
            line = draw(st.sampled_from(cited))
            i = draw(st.integers(0, len(line[4]) - 1))
            c = line[4][i]
            near = [c.upper(), c.lower(), c.strip(), c + " ", c.swapcase()] if isinstance(c, str) else [str(c), -c, c + 1, c - 1, c + 0.25, int(c), -int(-c // 1), round(c)]
            near += [0, -1, None, "", "premise"]
            line[4][i] = draw(st.sampled_from(near))
    return {"logic": logic, "proof": lines}


def _lines_of(lines):
    for line in lines:
        yield line
        if line[0] == "b":
            yield from _lines_of(line[2])


@st.composite
def dressed(draw, logic):
    """A correct proof, in another dress."""
    return dress(draw, draw(correct(logic, 6)))


@st.composite
def mutated_dressed(draw, logic):
    """A proof that is mostly wrong, in another dress."""
    case = draw(mutated(logic, 1)) if draw(st.integers(0, 3)) else draw(correct(logic, 6))
    if len(set(sort_rows(case["proof"]))) < 1:
        return case
    return dress(draw, case, missing=True)
