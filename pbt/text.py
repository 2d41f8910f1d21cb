"""
Printing specs as text of the documented grammars, with every liberty they leave.

A style is a function 'pick(n)' that returns an integer in [0, n): with a constant 0,
the text is the plainest one (minimal parentheses, single blanks, first spellings).
"""

SPELLINGS = {
    "&": ["&", "&&"],
    "|": ["|", "||"],
    "->": ["->", ">>"],
    "!": ["~", "!"],
    "<->": ["<->"],
}
SYMBOL = {
    "ltl": {
        "always": "G", "eventually": "F", "next": "X[!]", "wnext": "X",
        "until": "U", "wuntil": "W", "release": "R", "srelease": "M",
    },
    "pltl": {"historically": "H", "once": "O", "before": "Y", "wbefore": "Z", "since": "S", "triggers": "T"},
}
LETTER_OPS = {s for d in SYMBOL.values() for s in d.values()}
BOOL_SYMBOL = {"iff": "<->", "implies": "->", "or": "|", "and": "&"}
# from the weakest to the strongest
LEVELS = {
    "pl": ["iff", "implies", "or", "and"],
    "ltl": ["iff", "implies", "or", "and", "wuntil", "until", "release", "srelease"],
    "pltl": ["iff", "implies", "or", "and", "since", "triggers"],
    "ldl": ["iff", "implies", "or", "and"],
    "re": ["union", "seq"],
}
WORDS = {"ptrue": "true", "pfalse": "false", "tt": "tt", "ff": "ff", "last": "last", "start": "start", "end": "end"}
RESERVED = {
    "pl": {"true", "false"},
    "ltl": {"true", "false", "tt", "ff", "last"},
    "pltl": {"true", "false", "tt", "ff", "start"},
    "ldl": {"true", "false", "tt", "ff", "last", "end"},
}
UNARY_LEVEL = 99


def level(spec, logic):
    """Binding strength of the main operator of a spec."""
    return LEVELS[logic].index(spec[0]) if spec[0] in LEVELS[logic] else UNARY_LEVEL


def tokens(spec, logic, pick):
    """
    Print a spec as a list of tokens, each a pair (kind, text).

    The kinds are the terminals of the grammars of cfg.py.
    """

    def spell(kind):
        options = SPELLINGS.get(kind, [kind])
        return (kind, options[pick(len(options))] if len(options) > 1 else kind)

    def parenthesised(x, lg):
        return [("(", "(")] + go(x, lg) + [(")", ")")]

    def at(x, lg, minimum):
        """Print an operand, which must bind at least as strongly as 'minimum'."""
        own = level(x, lg)
        if lg == "re" and x[0] == "star" and minimum > UNARY_LEVEL:
            own = UNARY_LEVEL
        elif own == UNARY_LEVEL:
            own = minimum
        out = parenthesised(x, lg) if own < minimum else go(x, lg)
        if pick(8) == 7:
            out = [("(", "(")] + out + [(")", ")")]
        return out

    def go(x, lg):
        op = x[0]
        if op == "atom":
            return [("sym", x[1])]
        if lg == "pl" and op in ("tt", "ff"):
            word = "true" if op == "tt" else "false"
            return [(word, word)]
        if op in WORDS:
            return [(WORDS[op], WORDS[op])]
        if op == "not":
            return [spell("!")] + at(x[1], lg, UNARY_LEVEL)
        if op in BOOL_SYMBOL or op in LEVELS[lg]:
            kind = BOOL_SYMBOL.get(op) or {"union": "+", "seq": ";"}.get(op) or SYMBOL[lg][op]
            minimum = LEVELS[lg].index(op) + 1
            out = []
            for i, operand in enumerate(x[1:]):
                if i:
                    out.append(spell(kind))
                out.extend(at(operand, lg, minimum))
            return out
        if lg in SYMBOL and op in SYMBOL[lg]:
            return [spell(SYMBOL[lg][op])] + at(x[1], lg, UNARY_LEVEL)
        if op in ("dia", "box"):
            left, right = ("<", ">") if op == "dia" else ("[", "]")
            return [(left, left)] + at(x[1], "re", 0) + [(right, right)] + at(x[2], "ldl", UNARY_LEVEL)
        if op == "star":
            return at(x[1], "re", UNARY_LEVEL + 1) + [("*", "*")]
        if op == "test":
            return at(x[1], "ldl", 0) + [("?", "?")]
        if op == "prop":
            return at(x[1], "pl", 0)
        raise KeyError(op)

    return at(spec, logic, 0)


BLANKS = ["", " ", "  ", "\t", "\n", " \n\t", "\r\n"]


def _wordy(c):
    return c.isalnum() or c in "_-"


def join(toks, pick):
    """Join tokens with blanks, as freely as the grammars allow."""
    out = []
    for i, (kind, text) in enumerate(toks):
        out.append(text)
        if i + 1 == len(toks):
            break
        following = toks[i + 1][1]
        if kind in LETTER_OPS:
            # the grammars demand ' ', '"' or '(' right after an alphabetic operator
            blank = ["", " ", "  ", " \t", " \n"][pick(5)]
            if not blank and following[0] not in '("':
                blank = " "
        else:
            blank = BLANKS[pick(len(BLANKS))]
            if not blank and _wordy(text[-1]) and _wordy(following[0]) and following[:2] != "->":
                blank = " "
        out.append(blank)
    lead, trail = BLANKS[pick(len(BLANKS))], BLANKS[pick(len(BLANKS))]
    if toks[-1][0] in LETTER_OPS:
        trail = " " + trail
    return lead + "".join(out) + trail


def plain(_n):
    """The plainest style."""
    return 0


def render(spec, logic, pick):
    """Print a spec as text."""
    return join(tokens(spec, logic, pick), pick)
