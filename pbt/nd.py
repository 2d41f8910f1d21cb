"""
Natural-deduction proofs as plain data, and a reference checker.

A proof is a list of lines:

  ["f", row, formula, rule, cited rows]
  ["t", row, term]                        the generic term that opens a box
  ["b", row, lines]                       a box; its first line has the row of the box
"""
from pylogics_modalities.deduction.fol.nd import NaturalDeduction as ND

from .core import Violation, freeze
from .spec import build, children, key, negate, norm, rebuild, term, walk, walk_term

RULE = {r.name: r for r in ND.rule}
BOX_RULES = {"impl_i", "neg_i", "or_e", "forall_i", "exists_e"}


# -- towards the library ------------------------------------------------------------


def flat(lines, logic):
    """The flat list that 'NaturalDeduction.Proof' takes."""
    out = []
    for line in lines:
        kind, row = line[0], line[1]
        if kind == "f":
            out += [row, build(line[2], logic), (RULE[line[3]],) + tuple(line[4])]
        elif kind == "t":
            out += [row, term(line[2]), (ND.rule.assumption,)]
        else:
            inner = line[2]
            if inner[0][0] == "t" and len(inner) > 1 and inner[1][0] == "f" and inner[1][1] == inner[0][1]:
                content = flat(inner[:1], logic)[1:2] + flat(inner[1:], logic)[1:]
            else:
                content = flat(inner, logic)[1:]
            out += [row, content]
    return out


def check(lines, logic):
    """The verdict of the library."""
    proof = ND.Proof(flat(lines, logic))
    return ND.check(proof)


def lines_of(lines):
    """All the lines of a proof."""
    for line in lines:
        yield line
        if line[0] == "b":
            yield from lines_of(line[2])


def formulas(lines):
    """All the formulae of a proof."""
    for line in lines:
        if line[0] == "f":
            yield line[2]
        elif line[0] == "b":
            yield from formulas(line[2])


def judgements(lines, given=()):
    """The lines of a proof, each with the premises and open assumptions it stands on."""
    given = list(given)
    for index, line in enumerate(lines):
        if line[0] == "f":
            if line[3] in ("premise", "assumption"):
                given.append(line[2])
            else:
                yield line, list(given)
        elif line[0] == "b":
            yield from judgements(line[2], given)


# -- terms ---------------------------------------------------------------------------


def occurs_in_term(t, u):
    """Does the term t occur in the term u?"""
    return freeze(t) == freeze(u) or (u[0] == "fun" and any(occurs_in_term(t, x) for x in u[2]))


def occurs_free(t, f, bound=()):
    """Does the variable or constant t occur free in the formula?"""
    if t[0] == "var" and t[1] in bound:
        return False
    op = f[0]
    if op == "pred":
        return any(occurs_in_term(t, x) for x in f[2])
    if op in ("forall", "exists"):
        return occurs_free(t, f[2], tuple(bound) + (f[1],))
    return any(occurs_free(t, c, bound) for c in children(f))


def occurs(t, f):
    """Does the variable or constant t occur, free or bound, in the formula?"""
    op = f[0]
    if op == "pred":
        return any(occurs_in_term(t, x) for x in f[2])
    if op in ("forall", "exists"):
        return freeze(t) == ("var", f[1]) or occurs(t, f[2])
    return any(occurs(t, c) for c in children(f))


def term_vars(t):
    if t[0] == "fun":
        return set().union(set(), *[term_vars(x) for x in t[2]])
    return {t[1]} if t[0] == "var" else set()


class Capture(Exception):
    """A variable of the term would be captured."""


def subst_term(t, x, a):
    if t[0] == "fun":
        return ["fun", t[1], [subst_term(u, x, a) for u in t[2]]]
    return a if t == ["var", x] else t


def subst(f, x, a):
    """f[a/x], not simplified."""
    op = f[0]
    if op == "pred":
        return ["pred", f[1], [subst_term(t, x, a) for t in f[2]]]
    if op in ("forall", "exists"):
        if f[1] == x or not occurs_free(["var", x], f[2]):
            return f
        if f[1] in term_vars(a):
            raise Capture
        return [op, f[1], subst(f[2], x, a)]
    return rebuild(f, [subst(c, x, a) for c in children(f)])


def instances(pattern, x, f, bound=()):
    """
    The terms that x stands for, if 'f' is 'pattern' with terms in place of the free occurrences of x.

    None if the shapes differ.
    """
    if pattern[0] != f[0]:
        return None
    op = pattern[0]
    if op == "pred":
        if pattern[1] != f[1] or len(pattern[2]) != len(f[2]):
            return None
        found = set()
        for p, t in zip(pattern[2], f[2]):
            r = _term_instances(p, x, t, bound)
            if r is None:
                return None
            found |= r
        return found
    if op in ("forall", "exists"):
        if pattern[1] != f[1]:
            return None
        return instances(pattern[2], x, f[2], tuple(bound) + (pattern[1],))
    if len(pattern) != len(f):
        return None
    if op == "atom":
        return set() if pattern == f else None
    found = set()
    for p, c in zip(pattern[1:], f[1:]):
        r = instances(p, x, c, bound)
        if r is None:
            return None
        found |= r
    return found


def _term_instances(p, x, t, bound):
    if p == ["var", x] and x not in bound:
        return {freeze(t)}
    if p[0] != t[0] or p[1] != t[1]:
        return None
    if p[0] != "fun":
        return set()
    if len(p[2]) != len(t[2]):
        return None
    found = set()
    for q, u in zip(p[2], t[2]):
        r = _term_instances(q, x, u, bound)
        if r is None:
            return None
        found |= r
    return found


def thaw(t):
    return [t[0], t[1], [thaw(x) for x in t[2]]] if t[0] == "fun" else list(t)


def normal(f):
    """Do the constructors leave the formula as it is?"""
    return norm(f) == f


# -- the reference checker ---------------------------------------------------------------

YES, NO, OPEN = True, False, None


def worst(a, b):
    """Conjunction of verdicts."""
    if a is NO or b is NO:
        return NO
    return OPEN if a is OPEN or b is OPEN else YES


def same(f, g):
    """Are two normal formulae the same? It is left open, if they differ in the order of operands only."""
    if f == g:
        return YES
    return OPEN if key(f) == key(g) else NO


def same_any(f, options):
    verdicts = [same(f, g) for g in options]
    return YES if YES in verdicts else OPEN if OPEN in verdicts else NO


def imp(phi, psi):
    """The two forms of an implication."""
    return [norm(["or", ["not", phi], psi]), norm(["implies", phi, psi])]


def reference(lines):
    """
    YES if the proof is correct, NO if it is not, OPEN if it is not stated.

    The formulae of the proof are taken to be normal (see spec.norm).
    """
    return _scope(lines, {}, False)


def _terms_of(visible):
    for x in visible.values():
        if x[0] == "f":
            yield x[2]


def _scope(lines, outer, inside):
    visible = dict(outer)
    verdict = YES
    opening = 1 if lines and lines[0][0] == "t" else 0
    if inside and lines[0][0] == "t":
        t = lines[0][2]
        if t[0] == "fun":
            verdict = OPEN
        for f in _terms_of(visible):
            if occurs_free(t, f):
                return NO
            if occurs(t, f):
                verdict = OPEN
        if any(freeze(t) == x for x in visible.get("generic", ())):
            verdict = OPEN
        visible["generic"] = visible.get("generic", ()) + (freeze(t),)
    for index, line in enumerate(lines):
        kind, row = line[0], line[1]
        if kind == "t":
            if index != 0 or not inside:
                verdict = worst(verdict, OPEN)
            continue
        if kind == "b":
            v = _scope(line[2], visible, True)
            if v is NO:
                return NO
            verdict = worst(verdict, v)
            visible[row] = line
            continue
        rule, cites = line[3], line[4]
        if rule == "premise":
            v = NO if inside else YES
        elif rule == "assumption":
            v = (YES if index == opening else NO) if inside else OPEN
        else:
            v = YES
        if any(c not in visible or c == "generic" for c in cites):
            v = NO
        elif rule in ("premise", "assumption"):
            v = worst(v, OPEN if cites else YES)
        else:
            v = worst(v, apply(rule, line[2], [visible[c] for c in cites]))
        if v is NO:
            return NO
        verdict = worst(verdict, v)
        visible[row] = line
    return verdict


class Wrong(Exception):
    """The citations are not of the right number, or kind."""


def _cited(args, kinds):
    if len(args) < len(kinds):
        raise Wrong
    out = []
    for a, k in zip(args, kinds):
        if a[0] != k:
            raise Wrong
        out.append(a[2])
    return out


def apply(rule, f, args):
    """The verdict on a line, given what it cites."""
    try:
        v = _apply(rule, f, args)
    except Wrong:
        return NO
    n = {"or_e": 3, "and_i": 2, "impl_e": 2, "MT": 2, "neg_e": 2, "exists_e": 2}.get(rule, 1)
    return worst(v, YES if len(args) == n else OPEN)


def _first_last(box):
    """The assumption and the last formula of a box."""
    first, last = box[0], box[-1]
    if first[0] != "f" or last[0] != "f":
        raise Wrong
    return first, last


def _apply(rule, f, args):
    if rule == "copy":
        (g,) = _cited(args, "f")
        return same(f, g)
    if rule in ("dneg_i", "dneg_e"):
        (g,) = _cited(args, "f")  # double negations are simplified when they are built
        return same(f, g)
    if rule == "bot_e":
        (g,) = _cited(args, "f")
        return YES if g == ["ff"] else NO
    if rule == "and_i":
        g, h = _cited(args, "ff")
        return same(f, norm(["and", g, h]))
    if rule in ("and_e1", "and_e2"):
        (g,) = _cited(args, "f")
        i = 1 if rule == "and_e1" else 2
        if g[0] == "and" and len(g) == 3:
            if f == g[i]:
                return YES
            return OPEN if key(f) == key(g[i]) else NO
        if g == ["ff"] or g == f or key(g) == key(f):
            return OPEN  # 'f & f', and 'f & ~f', are simplified when they are built
        if g[0] == "and":
            parts = {key(x) for x in g[1:]}
            wanted = {key(x) for x in (f[1:] if f[0] == "and" else [f])}
            return OPEN if wanted <= parts else NO
        return NO
    if rule in ("or_i1", "or_i2"):
        (g,) = _cited(args, "f")
        i = 1 if rule == "or_i1" else 2
        if f[0] == "or" and len(f) == 3:
            if g == f[i]:
                return YES
            return OPEN if key(g) == key(f[i]) or key(g) == key(f) else NO
        if f == ["tt"] or key(f) == key(g):
            return OPEN
        if f[0] == "or":
            parts = {key(x) for x in f[1:]}
            given = {key(x) for x in (g[1:] if g[0] == "or" else [g])}
            return OPEN if given <= parts else NO
        return NO
    if rule == "impl_e":
        g, h = _cited(args, "ff")
        v = same_any(h, imp(g, f))
        if v is NO and same_any(g, imp(h, f)) is not NO:
            return OPEN  # cited in the other order
        return v
    if rule == "MT":
        g, h = _cited(args, "ff")
        v = same_any(g, imp(negate(f), negate(h)))
        if v is NO and same_any(h, imp(negate(f), negate(g))) is not NO:
            return OPEN
        return v
    if rule == "neg_e":
        g, h = _cited(args, "ff")
        if f != ["ff"]:
            return NO
        return same(h, negate(g))
    if rule in ("impl_i", "neg_i"):
        (box,) = _cited(args, "b")
        first, last = _first_last(box)
        if rule == "impl_i":
            v = same_any(f, imp(first[2], last[2]))
        else:
            v = same(f, negate(first[2])) if last[2] == ["ff"] else NO
        return worst(v, YES if first[3] == "assumption" else OPEN)
    if rule == "or_e":
        g, box1, box2 = _cited(args, "fbb")
        (a1, z1), (a2, z2) = _first_last(box1), _first_last(box2)
        v = same(g, norm(["or", a1[2], a2[2]]))
        v = worst(worst(v, same(f, z1[2])), same(f, z2[2]))
        return worst(v, YES if a1[3] == a2[3] == "assumption" else OPEN)
    if rule == "forall_i":
        (box,) = _cited(args, "b")
        if f[0] != "forall" or box[0][0] != "t" or len(box) < 2:
            return NO
        a, last = box[0][2], box[-1]
        if last[0] != "f":
            return NO
        if a[0] == "fun":
            return NO
        if box[1][0] == "f" and box[1][3] == "assumption":
            return NO
        x, phi = f[1], f[2]
        if a != ["var", x] and occurs_free(a, phi):
            return NO
        return worst(_instance(phi, x, a, last[2]), OPEN if a != ["var", x] and occurs(a, phi) else YES)
    if rule in ("forall_e", "exists_i"):
        (g,) = _cited(args, "f")
        quantified, instance = (g, f) if rule == "forall_e" else (f, g)
        if quantified[0] != ("forall" if rule == "forall_e" else "exists"):
            return NO
        x, phi = quantified[1], quantified[2]
        found = instances(phi, x, instance)
        if found is None or len(found) > 1:
            return OPEN if _simplified(phi, x, instance) else NO
        a = thaw(next(iter(found))) if found else ["var", x]
        return _instance(phi, x, a, instance)
    if rule == "exists_e":
        g, box = _cited(args, "fb")
        if g[0] != "exists" or box[0][0] != "t" or len(box) < 2:
            return NO
        a, second, last = box[0][2], box[1], box[-1]
        if a[0] == "fun" or second[0] != "f" or last[0] != "f":
            return NO
        if second[3] != "assumption":
            return OPEN
        if occurs_free(a, g) or occurs_free(a, last[2]):
            return NO
        v = worst(_instance(g[2], g[1], a, second[2]), same(f, last[2]))
        return worst(v, OPEN if occurs(a, g) or occurs(a, last[2]) else YES)
    raise KeyError(rule)


def _instance(phi, x, a, instance):
    """Is the instance phi[a/x]?"""
    try:
        g = subst(phi, x, a)
    except Capture:
        return NO
    if not normal(g):
        return OPEN  # the substitution makes the constructors simplify
    return same(instance, g)


def _simplified(phi, x, instance):
    """Is the instance phi[a/x], for some term a that makes the constructors simplify?"""
    for a in {freeze(t) for f in (phi, instance) for t in terms_of(f)}:
        try:
            g = subst(phi, x, thaw(a))
        except Capture:
            continue
        if not normal(g) and key(norm(g)) == key(instance):
            return True
    return False


def terms_of(f):
    """The terms (and their sub-terms) of a formula."""
    if f[0] == "pred":
        stack = list(f[2])
        while stack:
            t = stack.pop()
            yield t
            stack.extend(t[2] if t[0] == "fun" else [])
    for c in children(f):
        yield from terms_of(c)
