"""Hypothesis strategies of first-order formulae and terms."""
from hypothesis import strategies as st

VARS = ["x", "y", "z"]
CONSTS = ["a", "b", "c"]
# name -> arity
FUNS = {"f": 1, "g": 2, "h": 0, "k": 3}
ARITY = [2] * 8 + [3] * 3 + [6]
PREDS = {"P": 1, "Q": 1, "R": 2, "A": 0, "S": 4}


@st.composite
def term(draw, fuel=1, variables=tuple(VARS), constants=tuple(CONSTS), functions=True):
    k = draw(st.integers(0, 5))
    if functions and fuel > 0 and k == 5:
        f = draw(st.sampled_from(sorted(FUNS)))
        return ["fun", f, [draw(term(fuel - 1, variables, constants, functions)) for _ in range(FUNS[f])]]
    if constants and (k > 2 or not variables):
        return ["const", draw(st.sampled_from(list(constants)))]
    return ["var", draw(st.sampled_from(list(variables)))]


@st.composite
def atom(draw, **options):
    p = draw(st.sampled_from(sorted(PREDS)))
    return ["pred", p, [draw(term(**options)) for _ in range(PREDS[p])]]


@st.composite
def fol_formula(draw, fuel=2, constants_too=True, **options):
    """A first-order spec."""
    if fuel <= 0:
        if constants_too and draw(st.integers(0, 9)) == 9:
            return draw(st.sampled_from([["tt"], ["ff"]]))
        return draw(atom(**options))
    sub = fol_formula(fuel - 1, constants_too=constants_too, **options)
    kind = draw(st.sampled_from(["atom", "not", "and", "or", "implies", "iff", "forall", "exists", "forall", "exists"]))
    if kind == "atom":
        return draw(atom(**options))
    if kind == "not":
        return ["not", draw(sub)]
    if kind in ("forall", "exists"):
        return [kind, draw(st.sampled_from(VARS)), draw(sub)]
    return [kind] + [draw(sub) for _ in range(draw(st.sampled_from(ARITY)))]
