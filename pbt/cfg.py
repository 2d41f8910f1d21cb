"""
Reference recogniser of the documented grammars (docs/grammars.md), at token level.

A grammar maps a non-terminal to its alternatives (tuples of symbols); a symbol
that is not a key of the grammar is a terminal. Recognition is by a plain Earley
algorithm, so it does not depend on how an LALR generator resolves conflicts.
"""


def binary_levels(prefix, levels, last):
    """Productions of a cascade of 'x: y (OP y)*' rules."""
    rules = {}
    names = [n for n, _ in levels] + [last]
    for (name, op), nxt in zip(levels, names[1:]):
        rules[prefix + name] = [(prefix + nxt,), (prefix + name, op, prefix + nxt)]
    return rules


PL = dict(
    binary_levels("p_", [("iff", "<->"), ("imp", "->"), ("or", "|"), ("and", "&")], "not"),
    p_not=[("!", "p_not"), ("p_wrap",)],
    p_wrap=[("sym",), ("true",), ("false",), ("(", "p_iff", ")")],
)

LTL = dict(
    binary_levels(
        "l_",
        [("iff", "<->"), ("imp", "->"), ("or", "|"), ("and", "&"), ("W", "W"), ("U", "U"), ("R", "R"), ("M", "M")],
        "unary",
    ),
    l_unary=[(op, "l_unary") for op in ("G", "F", "X[!]", "X", "!")]
    + [(x,) for x in ("sym", "true", "false", "tt", "ff", "last")]
    + [("(", "l_iff", ")")],
)

PLTL = dict(
    binary_levels(
        "h_", [("iff", "<->"), ("imp", "->"), ("or", "|"), ("and", "&"), ("S", "S"), ("T", "T")], "unary"
    ),
    h_unary=[(op, "h_unary") for op in ("H", "O", "Y", "Z", "!")]
    + [(x,) for x in ("sym", "true", "false", "tt", "ff", "start")]
    + [("(", "h_iff", ")")],
)

LDL = dict(
    binary_levels("d_", [("iff", "<->"), ("imp", "->"), ("or", "|"), ("and", "&")], "unary"),
    d_unary=[
        ("[", "r_union", "]", "d_unary"),
        ("<", "r_union", ">", "d_unary"),
        ("!", "d_unary"),
        ("tt",),
        ("ff",),
        ("last",),
        ("end",),
        ("(", "d_iff", ")"),
    ],
    r_union=[("r_seq",), ("r_union", "+", "r_seq")],
    r_seq=[("r_star",), ("r_seq", ";", "r_star")],
    r_star=[("r_test",), ("r_test", "*")],
    r_test=[("d_iff", "?"), ("r_wrap",)],
    r_wrap=[("p_iff",), ("(", "r_union", ")")],
    **PL,
)

GRAMMARS = {"pl": (PL, "p_iff"), "ltl": (LTL, "l_iff"), "pltl": (PLTL, "h_iff"), "ldl": (LDL, "d_iff")}


def recognise(logic, tokens):
    """
    Tell whether the sequence of token kinds is a formula of the logic.

    Each token is the collection of the kinds (one, mostly) it can be read as.
    """
    grammar, start = GRAMMARS[logic]
    n = len(tokens)
    chart = [dict() for _ in range(n + 1)]  # ordered sets of items
    waiting = [dict() for _ in range(n + 1)]

    def add(pos, item):
        if item not in chart[pos]:
            chart[pos][item] = None
            queue.append(item)

    for pos in range(n + 1):
        queue = list(chart[pos])
        if pos == 0:
            for alt in grammar[start]:
                add(0, (start, alt, 0, 0))
        while queue:
            head, alt, dot, origin = queue.pop()
            if dot == len(alt):
                for (h, a, d, o) in list(waiting[origin].get(head, ())):
                    add(pos, (h, a, d + 1, o))
                continue
            symbol = alt[dot]
            if symbol in grammar:
                waiting[pos].setdefault(symbol, []).append((head, alt, dot, origin))
                for a in grammar[symbol]:
                    add(pos, (symbol, a, 0, pos))
            elif pos < n and symbol in tokens[pos]:
                chart[pos + 1][(head, alt, dot + 1, origin)] = None
        if not chart[pos] and pos > 0:
            return False
    return any(h == start and d == len(a) and o == 0 for (h, a, d, o) in chart[n])
