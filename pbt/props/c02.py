"""C02: the parsers accept exactly the documented languages."""
import itertools

from hypothesis import strategies as st
from lark.exceptions import UnexpectedInput

from .. import cfg, gen, lexer, text
from ..core import Skip, Violation, require
from ..engine import Part
from ..spec import PARSE, walk

ID = "C02"
RULE = (
    "a case is a text for one of the four parsers: every sequence of tokens up to a bounded length, valid texts with "
    "tokens or characters deleted, inserted, replaced, repeated or swapped, every ASCII and some other characters at every place, and random texts over the alphabet of the "
    "grammar; the oracle is a reference lexer with an Earley recogniser of the documented grammar; a case is non-trivial when the text has "
    "at least three tokens (or is one edit away from such a text)"
)
ASSUMPTIONS = [
    "texts that are formulae only if a keyword is read as the name of an atom are outside of the domain",
]


def verdict(case):
    """Expected answer: True, False or None (outside of the domain)."""
    logic, s = case["logic"], case["text"]
    toks = lexer.lex(s, logic)
    if toks is None:
        return False, 0
    if cfg.recognise(logic, toks):
        return True, len(toks)
    lax = lexer.lex(s, logic, lax=True)
    if cfg.recognise(logic, lax):
        return None, len(toks)
    return False, len(toks)


def check(case):
    from pylogics_modalities.exceptions import PylogicsError

    logic, s = case["logic"], case["text"]
    expected, n = verdict(case)
    if expected is None:
        raise Skip()
    try:
        result = PARSE[logic](s)
    except (UnexpectedInput, PylogicsError) as e:
        require(not expected, "parse_{}({!r}) rejects a text of the grammar: {}", logic, s, type(e).__name__)
        return n >= 3 or bool(case.get("mutant")), [logic, "rejected"]
    except Exception as e:
        raise Violation(
            "parse_%s(%r) fails with %s, which is not a parsing error: %s" % (logic, s, type(e).__name__, e)
        )
    require(expected, "parse_{}({!r}) accepts a text outside of the grammar, as {!r}", logic, s, result)
    walk(result, logic)
    return n >= 3, [logic, "accepted"]


ALPHABET = {
    "pl": ["a", "(", ")", "&", "|", "->", "<->", "!", "true"],
    "ltl": ["a", "(", ")", "&", "->", "!", "U ", "R ", "X ", "X[!] ", "G ", "last", "tt"],
    "pltl": ["a", "(", ")", "|", "<->", "!", "S ", "T ", "Y ", "Z ", "H ", "start", "ff"],
    "ldl": ["a", "(", ")", "&", "!", "<", ">", "[", "]", "+", ";", "?", "*", "tt", "end"],
}
BOUND = {"quick": {"pl": 5, "ltl": 4, "pltl": 4, "ldl": 3}, "thorough": {"pl": 6, "ltl": 5, "pltl": 5, "ldl": 5}}


def short(tier):
    """All the short sequences of tokens."""
    for logic, alphabet in ALPHABET.items():
        for n in range(0, BOUND[tier][logic] + 1):
            for seq in itertools.product(alphabet, repeat=n):
                yield {"logic": logic, "text": " ".join(seq)}
    # the regular expressions of LDL need some context to be reached
    body = ["a", "(", ")", "&", "!", "?", "tt", "*", ";"]
    for n in range(0, 5 if tier == "quick" else 7):
        for seq in itertools.product(body, repeat=n):
            yield {"logic": "ldl", "text": "<" + " ".join(seq) + "> tt"}


EXTRA = {
    "pl": ["G ", "U ", "tt", "last", "<", ";", "^", "=", "1", "A", "false", "||", "&&", ">>", "-", "--", "\""],
    "ltl": ["Y ", "S ", "F ", "W ", "M ", "end", "start", "<", "X[ ", "X[!", "[!]", "W", "G", "true", "false", ">", "="],
    "pltl": ["O ", "G ", "U ", "last", "first", "H", "S", "X ", "true", "false", "<", "1", "T", "\"", "Z"],
    "ldl": ["last", "ff", "true", "false", "|", "->", "<->", ">>", "X ", "U ", "start", "1", "**", "??", "_", "<a>", "[]"],
}


@st.composite
def mutants(draw):
    """A text of the grammar, with a few tokens edited."""
    case = draw(gen.printed(fuel=(1, 3), shorthands=True))
    logic = case["logic"]
    toks = text.tokens(case.pop("spec"), logic, gen.picker(draw))
    for _ in range(draw(st.integers(0, 3))):
        i = draw(st.integers(0, len(toks)))
        kind = draw(st.sampled_from(["delete", "insert", "replace", "swap", "repeat"]))
        extra = draw(st.sampled_from(ALPHABET[logic] + EXTRA[logic]))
        new = (extra.strip() if extra.endswith(" ") else extra, extra)
        if kind == "delete":
            del toks[i:i + 1]
        elif kind == "insert":
            toks.insert(i, new)
        elif kind == "replace":
            toks[i:i + 1] = [new]
        elif kind == "swap":
            toks[i:i + 2] = reversed(toks[i:i + 2])
        else:
            toks[i:i] = toks[i:i + 1 + draw(st.integers(0, 3))]
    if not toks:
        return {"logic": logic, "text": ""}
    return {"logic": logic, "text": text.join(toks, gen.picker(draw)), "mutant": 1}


CHARS = {
    "pl": "ab_-A1\"()&|!~<->truefals \t",
    "ltl": "ab-\"()&|!~<->[]UXRGFWMtfls \n",
    "pltl": "ab-\"()&|!~<->STHOYZtfsr \n",
    "ldl": "ab-\"()&|!~<->[]+;?*tfends ",
}


@st.composite
def characters(draw):
    """A text with a few characters edited, or a random one."""
    if draw(st.integers(0, 2)) == 0:
        logic = draw(st.sampled_from(gen.LOGICS))
        return {"logic": logic, "text": draw(st.text(alphabet=CHARS[logic], max_size=12))}
    case = draw(gen.printed(fuel=(1, 2), shorthands=True))
    logic, s = case["logic"], case["text"]
    odd = st.characters(blacklist_categories=["Cs"])
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(s)))
        c = draw(st.one_of(st.sampled_from(CHARS[logic]), st.sampled_from(CHARS[logic]), odd))
        kind = draw(st.sampled_from(["delete", "insert", "replace", "upper", "cut"]))
        if kind == "delete":
            s = s[:i] + s[i + 1:]
        elif kind == "insert":
            s = s[:i] + c + s[i:]
        elif kind == "replace":
            s = s[:i] + c + s[i + 1:]
        elif kind == "upper":
            s = s[:i] + s[i:i + 1].swapcase() + s[i + 1:]
        else:
            s = s[:i]
    return {"logic": logic, "text": s, "mutant": 1}


# characters without a meaning, blanks other than ASCII ones, and characters that resemble those with a meaning
FOREIGN = [chr(c) for c in range(128)] + list(
    "\u0085\u00a0\u00ac\u00ad\u00b2\u00aa\u00b5\u00e0\u0301\u0131\u017f\u0391\u03b1\u0430\u0660\u1680\u180e"
    "\u2000\u2003\u200b\u200d\u2028\u2029\u202f\u2032\u203c\u2060\u2081\u2190\u2192\u2194\u21d2\u21d4\u2227\u2228\u223c"
    "\u25a1\u25c7\u3000\ufeff\uff01\uff06\uff08\uff11\uff21\uff41\uff5c\uff5e\ufb01\ufffd\U0001d44e\U0001f600"
)
HOSTS = {
    "pl": ['a & b', '!ab | "c d" -> true'],
    "ltl": ['F(a) U b', 'G "a b" & X[!] last'],
    "pltl": ['O(a) S b', 'H "a b" & start'],
    "ldl": ['<a;b*>tt', '[(a & "c d")?]last | end'],
}
TAILS = ["#c", "# b", "//c", "% x", ". a", ", b", "; c", "/*c*/", "--c", "'a'", "$", "{a}", "\\", "a", "(", ")", "1", "\0", "@", "^", "`", "=", "tt"]


def foreign(tier):
    """Each character at each place of a few texts, and more of it at the ends."""
    for logic, hosts in HOSTS.items():
        for n, host in enumerate(hosts):
            places = range(len(host) + 1) if tier == "thorough" or n == 0 else range(0, len(host) + 1, 2)
            for i in places:
                for c in FOREIGN:
                    yield {"logic": logic, "text": host[:i] + c + host[i:], "mutant": 1}
                    if tier == "thorough":
                        yield {"logic": logic, "text": host[:i] + c + host[i + 1:], "mutant": 1}
                for s in TAILS:
                    yield {"logic": logic, "text": host[:i] + s + host[i:], "mutant": 1}
            for c in FOREIGN:
                for n in (2, 3):
                    yield {"logic": logic, "text": host + c * n, "mutant": 1}
                    yield {"logic": logic, "text": c * n + host, "mutant": 1}
                yield {"logic": logic, "text": host + " " + c + "\n", "mutant": 1}
                yield {"logic": logic, "text": c + host + c, "mutant": 1}
                yield {"logic": logic, "text": host + "\n" + c + " b", "mutant": 1}


# what someone may write, or another tool prints, instead of a token; the oracle tells which of these texts are formulae
ALTERNATIVES = {
    "&": ["and", "AND", "And", "\u2227", "/\\", ".", "*", "&&&", "& &", "\u00b7", ",", "&amp;", "\u2293", "^", ""],
    "|": ["or", "OR", "Or", "\u2228", "\\/", "+", "|||", "| |", "v", "\u2294", "/", "xor", ""],
    "->": ["=>", "implies", "IMPLIES", "\u2192", "\u21d2", "\u2283", "-->", "- >", ">", ">>>", "> >", "==>", "-", "\u2212>", "\u2013>", "|->", "<-", "imp", "~>", ":-"],
    "<->": ["<=>", "iff", "IFF", "=", "==", "\u2194", "\u21d4", "\u2261", "<-->", "< ->", "<- >", "<>", "equivalence", "xnor", "<<->>", "<<>>", "<\u2212>", "!="],
    "!": ["not", "NOT", "Not ", "not ", "\u00ac", "-", "\u223c", "\u02dc", "!!", "! ", "~!", "~ ~", "^", "'", "\u203e"],
    "X[!]": ["X [!]", "X[ !]", "X[!", "x[!]", "X[~]", "X[]", "N", "N[!]", "next", "X!", "X [!] ", "SX", "\u25ef", "X[!][!]", "()", "W[!]", "X[!]\t", "X[!]\n", "X(!)", "WX[!]"],
    "X": ["x", "next", "N", "WX", "\u25ef", "Xw", "XX", "X\t", "X\n", "X X", "()", "wX", "X[", "WX[!]", "X[?]", "Y"],
    "G": ["g", "[]", "\u25a1", "always", "GG", "globally", "G\t", "G\n", "G G", "A", "\u0413", "H", "[ ]"],
    "F": ["f", "<>", "\u25c7", "eventually", "FF", "finally", "F\t", "F\n", "F F", "E", "O", "< >"],
    "U": ["u", "until", "UU", "V", "\U0001d4b0", "U\t", "U\n", "U U", "SU", "W", "\u222a", "S", "W U"],
    "W": ["w", "weak_until", "WU", "W\t", "W\n", "U", "M", "R"],
    "R": ["r", "release", "V", "RR", "R\t", "R\n", "T", "WR", "SR"],
    "M": ["m", "strong_release", "SR", "R", "M\t", "M\n", "W"],
    "H": ["h", "historically", "G", "[-]", "\u25a0", "H\t", "H\n", "HH", "[*]"],
    "O": ["o", "once", "F", "<->", "P", "\u25c6", "O\t", "O\n", "0", "<*>"],
    "Y": ["y", "before", "X", "Y[!]", "Y\t", "Y\n", "Z", "yesterday", "(~)"],
    "Z": ["z", "weak_before", "WY", "Z[!]", "Y[!]", "Z\t", "Z\n", "Y"],
    "S": ["s", "since", "U", "S\t", "S\n", "SS", "T", "\u0405"],
    "T": ["t", "triggers", "R", "T\t", "T\n", "TT", "S", "tt"],
    "(": ["[", "{", "((", "<", "\u27e8", "()", "", "begin", "( ", "(("],
    ")": ["]", "}", "))", ">", "\u27e9", "()", "", "end", ") )", ");"],
    "<": ["\u27e8", "<<", "&lt;", "(", "[", "< ", "\u3008", "{", "<(", "", "\u2039"],
    ">": ["\u27e9", "> >", "&gt;", ")", "]", " >", "\u3009", "}", ")>", "", ">>", "->", "\u203a"],
    "[": ["(", "{", "<", "[[", "\u27e6", "[ ", "", "\u3010"],
    "]": [")", "}", ">", "]]", "\u27e7", " ]", "", "\u3011"],
    "+": ["|", "||", "U", "u", "++", "\u222a", "or", ",", "-", "\u002b\u002b", "", "/"],
    ";": [",", ".", ";;", "", " ", "and", "\u037e", ":", "\u22c5", "; ;", "&", "\uff1b"],
    "*": ["**", "^*", "+", "?", "* *", "\u2217", "\u22c6", "^", "{0,}", "?*", "*?", "^+", ""],
    "?": ["??", "? ?", "\u037e", "\u061f", "", "*?", "?*", "!", "test"],
}
CONSTANTS = ["true", "false", "tt", "ff", "last", "start", "first", "end", "top", "bottom", "1", "0", "T", "F", "\u22a4", "\u22a5", "t", "f", "()", "True()", "tru", "truee"]
QUOTES = [("\u201c", "\u201d"), ("\u201d", "\u201d"), ("\u201e", "\u201c"), ("\u2018", "\u2019"), ("'", "'"), ("`", "`"), ("\u00ab", "\u00bb"),
          ("\"\"", "\"\""), ("\"", ""), ("", "\""), ("\\\"", "\\\""), ("\"", "'"), ("\uff02", "\uff02"), ("''", "''"), ("|", "|"), ("\"\"\"", "\"\"\""), ("\u2033", "\u2033")]


def cases_of(word):
    """The same word in other cases and other alphabets."""
    yield from {word.upper(), word.lower(), word.capitalize(), word.swapcase(), word.title()} - {word}
    yield "".join(chr(ord(c) + 0xFEE0) if 32 < ord(c) < 127 else c for c in word)
    for old, new in (("a", "\u0430"), ("e", "\u0435"), ("s", "\u017f"), ("i", "\u0131"), ("t", "\u03c4"), ("ff", "\ufb00"), ("f", "\u0192"), ("p", "\u0440")):
        if old in word:
            yield word.replace(old, new)


def other_words(kind, written):
    """Alternatives to a token."""
    for w in ALTERNATIVES.get(kind, ()):
        yield w
    yield from cases_of(written)
    if kind in text.WORDS.values():
        yield from CONSTANTS
        for w in CONSTANTS:
            yield w.upper()
            yield w.capitalize()
    if kind == "sym":
        body = written.strip('"')
        for left, right in QUOTES:
            yield left + body + right
        for w in ("1" + body, body + "!", body + "'", body + ".x", "-" + body, body + "-", "$" + body, "A" + body, body.upper(), body + "()", body + "[0]", "@" + body, "", "x:" + body, body + "=1", "&" + body):
            yield w
    elif written.strip():
        yield '"' + written + '"'
        yield "\\" + written
        yield written + written
        yield written[:-1]
        yield " ".join(written)
        yield ""


WRITTEN = {
    "pl": ["(a & !b | true) -> c <-> \"d e\"", "! (false || a) >> ~ b && c"],
    "ltl": [
        "G (a U b) & F ! c -> X[!] last | X true", "(a R \"d e\") W b M c <-> false | tt & ff", "! F (a) U (b) || G \"x\"", "X (a) >> X[!](b) && ~ last",
    ],
    "pltl": ["H (a S b) & O ! c -> Y start | Z true", "(a T \"d e\") S b <-> false | tt & ff", "! O (a) S (b) || H \"x\"", "Y (a) >> Z (b) && ~ start"],
    "ldl": ["< a ; (b & !c) * > tt & [ d + \"d e\" ? ] ff", "< (tt ?; true*)* > (last | end)", "[ (a + false) ; b ] ! ff -> <a> tt <-> end", "! [ \"x\" * ] last"],
}
WRITTEN["ldl"][0] = "< a ; (b & !c) * > tt & [ d + <\"d e\">tt ? ] ff"


def words_of(s, logic):
    """The tokens of a text, with their kinds, and the blanks between them."""
    out, i = [], 0
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        # the longest prefix that is a single token
        for j in range(len(s), i, -1):
            toks = lexer.lex(s[i:j] + " ", logic)
            if toks is not None and len(toks) == 1 and not s[j - 1].isspace():
                break
        out.append((i, j, next(iter(toks[0]))))
        i = j
    return out


def alternatives(tier):
    """Each token of a few texts, replaced by another way to write it; all the tokens of a kind, too."""
    for logic, hosts in WRITTEN.items():
        for host in hosts:
            places = words_of(host, logic)
            for i, j, kind in places:
                for w in other_words(kind, host[i:j]):
                    for new in (w, " " + w + " "):
                        yield {"logic": logic, "text": host[:i] + new + host[j:], "mutant": 1}
            for kind in sorted({k for _, _, k in places}):
                for n in range(len(ALTERNATIVES.get(kind, ()))):
                    s = host
                    for i, j, k in reversed(places):
                        if k == kind:
                            s = s[:i] + " " + ALTERNATIVES[kind][n] + " " + s[j:]
                    yield {"logic": logic, "text": s, "mutant": 1}
            # pairs of brackets
            for i, j, kind in places:
                if kind in ("(", "[", "<"):
                    close = {"(": ")", "[": "]", "<": ">"}[kind]
                    for i2, j2, k2 in places:
                        if i2 > i and k2 == close:
                            for left, right in ("()", "[]", "<>", "{}", ["((", "))"], ["<<", ">>"], ["[[", "]]"], ["\u27e8", "\u27e9"], ["", ""], ["(", ""], ["<", "]"], ["(", "]"], ["\uff08", "\uff09"], [")", "("]):
                                yield {"logic": logic, "text": host[:i] + left + host[j:i2] + right + host[j2:], "mutant": 1}
        for word in CONSTANTS:
            for w in [word] + sorted(cases_of(word)):
                hosts = {"ldl": ["%s", "<a>%s", "<%s>tt", "[%s?]tt", "<%s*>tt"], "pl": ["%s", "a & %s", "!%s"], "ltl": ["%s", "a U %s", "X(%s)"], "pltl": ["%s", "a S %s", "Y(%s)"]}[logic]
                for host in hosts:
                    yield {"logic": logic, "text": host % w, "mutant": 1}


@st.composite
def cross(draw):
    """A text of a logic, given to the parser of another one."""
    case = draw(gen.printed(fuel=(1, 3), shorthands=True))
    return {"logic": draw(st.sampled_from(gen.LOGICS)), "text": case["text"], "mutant": 1}


PARTS = [
    Part("short", check, cases=short),
    Part("foreign", check, cases=foreign),
    Part("alternatives", check, cases=alternatives),
    Part("mutants", check, mutants(), quick=8000, thorough=200000),
    Part("characters", check, characters(), quick=10000, thorough=250000),
    Part("cross", check, cross(), quick=3000, thorough=60000),
]
