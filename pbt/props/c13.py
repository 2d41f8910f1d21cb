"""C13: the names of atoms are exactly the documented symbols, for the constructors and for the parsers."""
import itertools

from hypothesis import strategies as st

from .. import gen, lexer, text
from ..core import Violation, require
from ..engine import Part
from ..spec import ATOMIC, PARSE, build, ldl, walk

from lark.exceptions import UnexpectedInput
from pylogics_modalities.exceptions import PylogicsError
from pylogics_modalities.helpers.misc import RegexConstrainedString
from pylogics_modalities.syntax.base import AtomName

ID = "C13"
RULE = (
    "a case is a string: all the strings up to a bounded length over a small alphabet, documented names, names with a "
    "few characters edited, and random Unicode strings; the oracle is a reference scanner of the documented symbols; "
    "non-trivial: the string has at least two characters"
)
ASSUMPTIONS = ["whether a keyword of a logic can be parsed as an atom is not stated"]


def valid(s):
    """The documented symbols."""
    if not s:
        return False
    if s[0] == '"':
        return len(s) >= 3 and s[-1] == '"' and all(32 <= ord(c) <= 126 and c != '"' for c in s[1:-1])
    return s[0] in lexer.HEAD and s[-1] in lexer.BODY and all(c in lexer.BODY or c == "-" for c in s[1:])


class Text(str):
    """Another class of strings."""


def check(case):
    s = case["name"]
    ok = valid(s)
    # strings of other classes have to be symbols as well
    for other in (RegexConstrainedString(s), Text(s)):
        try:
            name = AtomName(other)
        except ValueError:
            require(not ok, "AtomName rejects the symbol {!r}, a {}", s, type(other).__name__)
        else:
            require(ok and name == s, "AtomName accepts {!r}, a {}", s, type(other).__name__)
        cls = ATOMIC[sorted(ATOMIC)[len(s) % len(ATOMIC)]]
        try:
            f = cls(other)
        except ValueError:
            require(not ok, "{} rejects the symbol {!r}, a {}", cls, s, type(other).__name__)
        else:
            require(ok and f.name == s, "{} accepts {!r}, a {}", cls, s, type(other).__name__)
    for logic, cls in sorted(ATOMIC.items()):
        try:
            f = cls(s)
        except ValueError:
            require(not ok, "{} rejects the symbol {!r}", cls, s)
        else:
            require(ok, "{} accepts {!r}, which is not a symbol, as {!r}", cls, s, f)
            require(f.name == s and isinstance(f.name, str), "the name of {!r} is {!r}", s, f.name)
            require(walk(f, logic) == ["atom", s], "{!r} is read back as {!r}", s, f)
            require(str(f) == s, "the string of the atom {!r} is {!r}", s, str(f))
    try:
        name = AtomName(s)
    except ValueError:
        require(not ok, "AtomName rejects the symbol {!r}", s)
    else:
        require(ok, "AtomName accepts {!r}", s)
        require(name == s and hash(name) == hash(s) and isinstance(name, str), "AtomName({!r}) is {!r}", s, name)
        again = AtomName(name)
        require(again == s and type(again) is AtomName, "AtomName is not idempotent on {!r}: {!r}", s, again)
        for logic, cls in sorted(ATOMIC.items()):
            require(cls(name) == cls(s), "{} of an AtomName {!r} differs", cls, s)
    for logic, parse in sorted(PARSE.items()):
        if s in text.RESERVED[logic]:
            continue
        t = "<%s>tt" % s if logic == "ldl" else s
        try:
            f = parse(t)
        except (UnexpectedInput, PylogicsError):
            require(not ok, "parse_{} rejects the symbol {!r}", logic, s)
            continue
        result = walk(f, logic)
        expected = ["dia", ["prop", ["atom", s]], ["tt"]] if logic == "ldl" else ["atom", s]
        if ok:
            require(result == expected, "parse_{} reads the symbol {!r} as {!r}", logic, t, f)
        else:
            require(result != expected, "parse_{} reads {!r}, which is not a symbol, as an atom", logic, t)
    return len(s) >= 2, ["valid" if ok else "invalid", "length %d" % min(len(s), 10)]


@st.composite
def edited(draw):
    s = draw(gen.word)
    odd = st.one_of(st.sampled_from('ab_-Z09" \t\n.é²ªµ\x7f~!#'), st.characters(blacklist_categories=["Cs"]))
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(s)))
        kind = draw(st.sampled_from(["insert", "delete", "replace", "append", "prepend"]))
        c = draw(odd)
        s = {
            "insert": s[:i] + c + s[i:], "delete": s[:i] + s[i + 1:], "replace": s[:i] + c + s[i + 1:], "append": s + c,
            "prepend": c + s,
        }[kind]
    return {"name": s}


def short(tier):
    for n in range(0, 5 if tier == "quick" else 6):
        for seq in itertools.product('aZ0_-" .', repeat=n):
            yield {"name": "".join(seq)}
    for c in map(chr, range(0, 0x180)):
        for s in (c, "a" + c, "a" + c + "b", c + "a", '"%s"' % c, '"a%sb"' % c, "a-" + c, "a" + c + "\n"):
            yield {"name": s}
    for c in "\u0660\u00b2\u00aa\u2028\u3000\ufeff\u0430\u0391\U0001d41a\u1d43":
        for s in (c, "a" + c, "a" + c + "b", c + "a", '"%s"' % c):
            yield {"name": s}
    for w in gen.ODD:
        yield {"name": w}
    for n in (16, 63, 64, 127, 255, 256, 300, 1000):
        for s in ("a" * n, "a" + "-" * n + "b", '"' + "x y" * n + '"', "a-" * n, "_" * n + "9"):
            yield {"name": s}


PARTS = [
    Part("short", check, cases=short),
    Part("edited", check, edited(), quick=10000, thorough=250000),
    Part("random", check, st.fixed_dictionaries({"name": st.text(max_size=8)}), quick=3000, thorough=60000),
    Part("valid", check, st.fixed_dictionaries({"name": gen.word}), quick=3000, thorough=60000),
]
