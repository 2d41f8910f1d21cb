"""C20: the helpers keep their documented contracts."""
import array
import collections
import collections.abc
import re

from hypothesis import strategies as st

from .. import gen
from ..core import Violation, dumps, require
from ..engine import Part
from ..spec import LOGIC, base, build, walk

from pylogics_modalities.exceptions import ParsingError, PylogicsError
from pylogics_modalities.helpers import misc

ID = "C20"
RULE = (
    "a case is a call of a helper, with arguments of several types (empty and not, falsy, None, with repetitions, strings, "
    "lists, tuples, sets, generators of positions inside and outside the bounds), or a subclass of the constrained string "
    "with a regular expression and a string; the oracle is the documented contract, written with loops; non-trivial: the "
    "collection or the string has at least two elements"
)
ASSUMPTIONS = ["indices below minus the length of the sequence are not given to safe_get"]


class Custom(Exception):
    pass


EXCEPTIONS = [None, AssertionError, ValueError, PylogicsError, ParsingError, Custom, KeyError]
CONDITIONS = {
    "empty list": [], "list": [0], "zero": 0.0, "nan": float("nan"), "empty set": set(), "dict": {"a": 1}, "empty dict": {}, "text": "False", "bytes": b"",
    "tuple": (False,), "object": object(), "class": int, "function": len, "range": range(0), "minus one": -1, "complex": 0j, "ellipsis": Ellipsis,
}


class Anything:
    """Equal to everything."""

    def __eq__(self, other):
        return True

    __hash__ = None


class Undecided:
    """Neither true nor false."""

    def __bool__(self):
        raise ValueError("no truth value")


FALSY = [0, "", [], (), False, 0.0, set(), {}, Ellipsis, NotImplemented, Anything(), Undecided(), object(), None.__class__, "None"]


def enforce(case):
    condition, message, cls = case["condition"], case["message"], EXCEPTIONS[case["class"]]
    if case.get("odd"):
        condition = CONDITIONS[case["odd"]]
    args = [condition] if message is None and cls is None else [condition, message or ""]
    kwargs = {} if cls is None else {"exception_cls": cls}
    expected = cls or AssertionError
    try:
        result = misc.enforce(*args, **kwargs)
    except Exception as e:
        require(not condition, "enforce({!r}) raises {!r}", condition, e)
        require(type(e) is expected, "enforce raises {!r}, expected {}", e, expected.__name__)
        require(e.args == ((message or ""),), "enforce raises {!r}, the message was {!r}", e, message)
    else:
        require(bool(condition), "enforce({!r}) does not raise", condition)
        require(result is None, "enforce returns {!r}", result)
    return message is not None, ["holds" if condition else "fails", expected.__name__]


def thaw(kind, values):
    """A collection of the given type."""
    values = [tuple(v) if isinstance(v, list) else v for v in values]
    if kind == "str":
        return "".join(map(str, values))
    return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "dict": dict.fromkeys}[kind](values)


def collection(case):
    kind, values, immutable = case["kind"], case["values"], case["immutable"]
    arg = None if kind == "none" else thaw(kind, values)
    copied = None if arg is None else type(arg)(arg)
    content = [] if arg is None else list(arg)
    for helper, types in ((misc.ensure_set, (set, frozenset)), (misc.ensure_sequence, (list, tuple))):
        if helper is misc.ensure_sequence and kind in ("set", "frozenset", "dict"):
            continue
        result = helper(arg, immutable) if case["positional"] else helper(arg, immutable=immutable)
        default = helper(arg)
        require(type(result) is types[1 if immutable else 0], "{}({!r}, immutable={}) is {!r}", helper.__name__, arg, immutable, result)
        require(type(default) is types[1], "{}({!r}) is {!r}, which is not immutable", helper.__name__, arg, default)
        if helper is misc.ensure_set:
            good = all(x in content for x in result) and all(x in result for x in content)
        else:
            good = len(result) == len(content) and all(x == y for x, y in zip(result, content))
        require(good and default == types[1](result), "{}({!r}) has other elements: {!r}", helper.__name__, arg, result)
        if not immutable:
            # the caller owns what it gets
            if isinstance(result, set):
                result.add("new element")
            else:
                result.append("new element")
            require(arg is None or arg == copied, "changing the result of {} changes its argument", helper.__name__)
            fresh = helper(arg, immutable=False)
            require("new element" not in fresh or "new element" in content, "{} gives the same object again: {!r}", helper.__name__, fresh)
    sentinel = object()
    require(misc.ensure(arg, sentinel) is (sentinel if arg is None else arg), "ensure({!r}, default) is wrong", arg)
    require(arg is None or arg == copied, "the helpers change {!r} into {!r}", copied, arg)
    return len(values) >= 2, [kind]


class Mute(list):
    """False, whatever its elements."""

    def __bool__(self):
        return False


class MuteSet(set):
    def __bool__(self):
        return False


class Rows(collections.abc.Sequence):
    """A sequence of another class."""

    def __init__(self, values):
        self.values = list(values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        return self.values[i]


class Bag(collections.abc.Set):
    """A set of another class."""

    def __init__(self, values):
        self.values = list(dict.fromkeys(values))

    def __len__(self):
        return len(self.values)

    def __contains__(self, x):
        return x in self.values

    def __iter__(self):
        return iter(self.values)


Pair = collections.namedtuple("Pair", "first second")
SUBSETS = {"set": type("Subset", (set,), {}), "frozenset": type("Subset", (frozenset,), {}), "list": type("Sublist", (list,), {}), "tuple": type("Subtuple", (tuple,), {})}
UNUSUAL = {
    "mute": Mute, "mute set": MuteSet, "rows": Rows, "bag": Bag, "range": lambda v: range(len(v)), "bytes": lambda v: bytes(len(v) % 256 for _ in v),
    "deque": collections.deque, "generator": lambda v: (x for x in v), "keys": lambda v: dict.fromkeys(v).keys(), "values": lambda v: dict(enumerate(v)).values(),
    "counter": collections.Counter, "pair": lambda v: Pair(len(v), 0), "array": lambda v: array.array("i", range(len(v))),
    "subset": SUBSETS["set"], "subfrozen": SUBSETS["frozenset"], "sublist": SUBSETS["list"], "subtuple": SUBSETS["tuple"],
}


def unusual(case):
    """Collections of other classes."""
    kind, values = case["kind"], case["values"]
    make = UNUSUAL[kind]
    content = list(make(values))
    for immutable in (True, False):
        got = misc.ensure_set(make(values), immutable)
        require(
            type(got) is (frozenset if immutable else set) and got == set(content), "ensure_set of {} of {!r}, immutable={}, is {!r}", kind, values, immutable, got
        )
        got = misc.ensure_sequence(make(values), immutable=immutable)
        require(
            type(got) is (tuple if immutable else list) and list(got) == content, "ensure_sequence of {} of {!r}, immutable={}, is {!r}", kind, values, immutable, got
        )
    arg = make(values)
    require(misc.ensure(arg, []) is arg, "ensure({!r}, []) is another object", arg)
    for i in range(len(content)):
        wanted = content.index(content[i])
        seen = make(values)
        got = misc.find(seen, lambda x: x == content[i])
        require(got == wanted and type(got) is int, "find in {} of {!r} is {!r}, expected {}", kind, values, got, wanted)
        if hasattr(arg, "index") and not isinstance(arg, (str, bytes)) and kind != "pair":
            got = misc.safe_index(make(values), content[i])
            require(got == wanted, "safe_index in {} of {!r} is {!r}, expected {}", kind, values, got, wanted)
    if hasattr(arg, "__getitem__") and not isinstance(arg, dict):
        for i in range(len(content) + 3):
            default = object()
            got = misc.safe_get(make(values), i, default)
            require(got is default if i >= len(content) else got == content[i], "safe_get({} of {!r}, {}) is {!r}", kind, values, i, got)
    return len(content) >= 2, [kind]


def unusual_cases(tier):
    for kind in sorted(UNUSUAL):
        for values in ([], [0], [""], [1], ["a", 2], [2, 1, 2, 3], [None, 0, "", False], list(range(40)), [5] * 20, list(range(300, 0, -7))):
            yield {"kind": kind, "values": values}


def ensure(case):
    value = FALSY[case["value"]]
    default = object()
    require(misc.ensure(value, default) is value, "ensure({!r}, default) is not {!r}", value, value)
    require(misc.ensure(None, value) is value, "ensure(None, {!r}) is not the default", value)
    require(misc.ensure(None, None) is None, "ensure(None, None) is not None")
    return True, []


def searching(case):
    kind, values = case["kind"], case["values"]
    seq = thaw(kind, values)
    copied = seq[:]
    target = case["target"]
    content = list(seq)
    wanted = str(target) if kind == "str" else target
    expected = None
    for i in range(len(content)):
        if content[i] == wanted:
            expected = i
            break
    got = misc.safe_index(seq, wanted)
    require(got == expected and (got is None) is (expected is None), "safe_index({!r}, {!r}) is {!r}, expected {!r}", seq, wanted, got, expected)
    start = case["start"]
    expected = next((i for i in range(start, len(content)) if content[i] == wanted), None)
    got = misc.safe_index(seq, wanted, start)
    require(got == expected, "safe_index({!r}, {!r}, {}) is {!r}, expected {!r}", seq, wanted, start, got, expected)
    stop = start + case["index"] % 3
    expected = next((i for i in range(start, min(stop, len(content))) if content[i] == wanted), None)
    got = misc.safe_index(seq, wanted, start, stop)
    require(got == expected, "safe_index({!r}, {!r}, {}, {}) is {!r}, expected {!r}", seq, wanted, start, stop, got, expected)
    index = case["index"]
    if index >= -len(content):
        expected = content[index] if index < len(content) else None
        got = misc.safe_get(seq, index)
        require(got == expected and (got is None) is (expected is None), "safe_get({!r}, {}) is {!r}", seq, index, got)
        default = object()
        got = misc.safe_get(seq, index, default)
        require((got == content[index]) if index < len(content) else got is default, "safe_get({!r}, {}, default) is {!r}", seq, index, got)
        got = misc.safe_get(seq, index, default=default)
        require((got == content[index]) if index < len(content) else got is default, "safe_get({!r}, {}, default=) is {!r}", seq, index, got)
    # only the absence of the element is not an error
    class Incomparable:
        def __eq__(self, other):
            raise RuntimeError("cannot be compared")

    if content and kind != "str":
        try:
            got = misc.safe_index(seq, Incomparable())
        except RuntimeError:
            pass
        else:
            raise Violation("safe_index of an element that cannot be compared is %r" % (got,))
    calls = []

    def condition(x):
        calls.append(x)
        # any truthy value will do
        return x == wanted and (["yes"] if case["start"] % 2 else True)

    expected = -1
    for i in range(len(content)):
        if content[i] == wanted:
            expected = i
            break
    got = misc.find(seq, condition)
    require(got == expected and type(got) is int, "find({!r}, equal to {!r}) is {!r}, expected {}", seq, wanted, got, expected)
    require(calls == content[: len(calls)], "find tests {!r} of {!r}", calls, content)
    require(misc.find(seq, lambda x: False) == -1, "find({!r}, never) is not -1", seq)
    require(misc.find(seq, lambda x: True) == (0 if content else -1), "find({!r}, always) is not 0", seq)
    require(seq == copied, "the helpers change {!r} into {!r}", copied, seq)
    return len(content) >= 2, [kind, "found" if expected != -1 else "not found"]


class Text(str):
    """Another class of strings."""


REGEXES = ["[a-c]*", "a|ab", "(a|b)*c", "[a-z]+", "^a.*b$", "a?b?c?", "", ".", "[ab]\n?", "(?i)abc", "a{2,3}"]


def constrained(case):
    pattern, s = REGEXES[case["regex"]], case["string"]
    cls = type("Constrained", (misc.RegexConstrainedString,), {"REGEX": re.compile(pattern)})
    sub = type("Inner", (cls,), {})
    peer = type("Peer", (misc.RegexConstrainedString,), {"REGEX": cls.REGEX})
    # the whole of the string, including a final newline, has to match
    ok = re.match("(?:%s)\\Z" % pattern.lstrip("^").rstrip("$").replace("(?i)", ""), s, re.I if "(?i)" in pattern else 0) is not None
    if "$" in pattern and s.endswith("\n"):
        return False, []
    for c in (cls, sub):
        try:
            x = c(s)
        except ValueError:
            require(not ok, "a string constrained by {!r} rejects {!r}", pattern, s)
        else:
            require(ok, "a string constrained by {!r} accepts {!r}", pattern, s)
            require(type(x) is c and x == s and hash(x) == hash(s), "{!r} becomes {!r}", s, x)
            again = c(x)
            require(again == s and type(again) is c, "{!r}, made again, is {!r}", x, again)
        # strings of other classes have to match as well
        kin = [other(s) for other in (cls, sub, peer) if other is not c and ok]
        for other in [misc.RegexConstrainedString(s), Text(s)] + kin:
            try:
                x = c(other)
            except ValueError:
                require(not ok, "a string constrained by {!r} rejects {!r}, a {}", pattern, s, type(other).__name__)
            else:
                require(ok, "a string constrained by {!r} accepts {!r}, a {}", pattern, s, type(other).__name__)
                require(type(x) is c and x == s, "{!r} becomes {!r}", s, x)
    any_string = misc.RegexConstrainedString(s)
    require(any_string == s and isinstance(any_string, str), "the default constrained string changes {!r} into {!r}", s, any_string)
    return len(s) >= 2, ["matches" if ok else "does not match"]


def booleans(case):
    logic, spec = case["logic"], case["spec"]
    lg = LOGIC[logic]
    f = build(spec, logic)
    for none_is_true in (True, False):
        require(base.ensure_formula(f, none_is_true) is f, "ensure_formula({!r}, {}) is another formula", f, none_is_true)
        got = base.ensure_formula(None, is_none_true=none_is_true)
        require(
            walk(got, "pl") == (["tt"] if none_is_true else ["ff"]),
            "ensure_formula(None, {}) is {!r}", none_is_true, got,
        )
    for value in (True, False):
        got = base.make_boolean(value, lg)
        expected = ["tt"] if value else ["ff"]
        require(walk(got, logic) == expected, "make_boolean({}, {}) is {!r}", value, lg, got)
        require(got == base.make_boolean(value, logic=lg), "make_boolean({}, {}) differs each time", value, lg)
        require(got != base.make_boolean(not value, logic=lg), "make_boolean gives equal formulae for true and false")
        flipped = walk(~got, logic)
        require(flipped == (["ff"] if value else ["tt"]), "the negation of {!r} is {}", got, dumps(flipped))
    return True, [logic]


VALUE = st.one_of(st.integers(0, 4), st.sampled_from(["a", "b", "", "ab"]), st.booleans())
VALUES = st.lists(VALUE, max_size=6)


@st.composite
def enforces(draw):
    condition = draw(st.sampled_from([True, False, 0, 1, "", "x", None]))
    return {
        "condition": condition, "message": draw(st.one_of(st.none(), st.text(max_size=5), st.sampled_from(["{}", "{0} %s", "%", "a\nb", "x" * 500, " "]))),
        "class": draw(st.integers(0, len(EXCEPTIONS) - 1)),
        "odd": draw(st.sampled_from([None, None] + sorted(CONDITIONS))),
    }


@st.composite
def searches(draw):
    kind = draw(st.sampled_from(["list", "tuple", "str"]))
    # falsy elements too
    value = st.one_of(st.integers(0, 3), st.sampled_from("ab" if kind == "str" else ["a", "b", "", None, False, None]))
    values = draw(st.lists(value, max_size=6))
    return {
        "kind": kind, "values": values, "target": draw(value), "start": draw(st.integers(0, 6)),
        "index": draw(st.integers(-6, 8)),
    }


PARTS = [
    Part("enforce", enforce, enforces(), quick=2000, thorough=20000),
    Part("ensure", ensure, cases=lambda tier: ({"value": i} for i in range(len(FALSY)))),
    Part(
        "collection", collection,
        st.fixed_dictionaries({
            "kind": st.sampled_from(["none", "list", "tuple", "set", "frozenset", "dict", "str"]), "values": VALUES,
            "immutable": st.booleans(), "positional": st.booleans(),
        }),
        quick=5000, thorough=60000,
    ),
    Part("other collections", unusual, cases=unusual_cases),
    Part("searching", searching, searches(), quick=8000, thorough=100000),
    Part(
        "constrained", constrained,
        st.fixed_dictionaries({"regex": st.integers(0, len(REGEXES) - 1), "string": st.text(alphabet="abcC\n ", max_size=5)}),
        quick=6000, thorough=60000,
    ),
    Part("booleans", booleans, gen.logic_and_formula(tuple(gen.LOGICS), (0, 2)), quick=1000, thorough=10000),
]
