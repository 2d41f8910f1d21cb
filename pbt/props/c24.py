"""C24: updating the development dependencies asks for the newest compatible release of each one."""
import functools
import importlib.util
import logging
import os
import re
import subprocess
import sys
import tempfile
import types

import toml
from hypothesis import strategies as st
from packaging.specifiers import InvalidSpecifier, SpecifierSet
from packaging.version import InvalidVersion, Version, parse

from ..core import dumps, require
from ..engine import Part
from ..spec import REPO

ID = "C24"
RULE = (
    "a case is a pyproject.toml with a Python range and development dependencies, and the releases that an index has for "
    "them (final, pre-, post-releases, with versions written in several ways, invalid ones, without files, with or without "
    "a required Python); the network, pkg_resources and poetry are stand-ins that answer and record; non-trivial: some "
    "dependency has two releases or more"
)
ASSUMPTIONS = [
    "a wildcard after an order, as in >=3.6.*, which the standard does not allow, is ignored",
    "a release whose required Python is not valid may be considered to work with any Python, or with none",
    "the stand-in of pkg_resources.parse_version is packaging.version.parse, which it was an alias of",
]

SCRIPT = os.path.join(REPO, "scripts", "update-dependencies.py")
_module = []
INDEX = {}
CALLS = {n: getattr(subprocess, n) for n in ("run", "call", "check_call", "check_output")}
HANDLER = []


def command(args, *_, **__):
    return HANDLER[-1](args)


class Response:
    def __init__(self, status, data):
        self.status_code, self.data = status, data
        self.ok = status == 200

    def json(self):
        if self.data is None:
            raise ValueError("not json")
        return self.data

    def raise_for_status(self):
        if not self.ok:
            raise OSError("status %s" % self.status_code)


def get(url, *_, **__):
    name = re.search(r"/pypi/([^/]+)/json", url).group(1)
    kind, releases = INDEX[name]
    if kind == "offline":
        raise OSError("no network")
    if kind == "missing":
        return Response(404, {"message": "not found"})
    return Response(200, None if kind == "broken" else {"info": {"name": name}} if kind == "no releases" else {"releases": releases})


def script():
    if not _module:
        requests = types.ModuleType("requests")
        requests.codes = types.SimpleNamespace(ok=200)
        requests.get = get
        requests.exceptions = types.SimpleNamespace(RequestException=OSError)
        resources = types.ModuleType("pkg_resources")
        resources.parse_version = parse
        resources.packaging = types.SimpleNamespace(version=sys.modules["packaging.version"])
        # whichever way the script imports them, its commands are recorded
        for n in CALLS:
            setattr(subprocess, n, command)
        saved = {n: sys.modules.get(n) for n in ("requests", "pkg_resources")}
        sys.modules.update(requests=requests, pkg_resources=resources)
        try:
            spec = importlib.util.spec_from_file_location("update_dependencies", SCRIPT)
            module = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(module)
        finally:
            for n, m in saved.items():
                if m is None:
                    del sys.modules[n]
                else:
                    sys.modules[n] = m
            for n, fn in CALLS.items():
                setattr(subprocess, n, fn)
        logging.disable(logging.CRITICAL)
        _module.append(module)
    return _module[0]


@functools.lru_cache(None)
def lowest(python):
    """The lowest Python 3 in the range."""
    if python.startswith("^"):
        python = ">=%s,<%d" % (python[1:], int(python[1:].split(".")[0]) + 1)
    s = SpecifierSet(python)
    return next(v for v in ("3.%d.%d" % (m, p) for m in range(30) for p in range(30)) if v in s)


def admits(requires, python, invalid):
    if not requires:
        requires = ">=3"
    # the bounds with a wildcard that some old packages have
    requires = re.sub(r"([<>]=?\s*[0-9.]+?)\.\*", r"\1", requires)
    try:
        return Version(python) in SpecifierSet(requires)
    except InvalidSpecifier:
        return invalid


def expected(kind, releases, python, invalid):
    """The version to ask for, or None."""
    if kind != "ok":
        return None
    best = None
    for text, files in releases.items():
        try:
            v = Version(text)
        except InvalidVersion:
            continue
        if v.is_prerelease or not files or not admits(files[-1]["requires_python"], python, invalid):
            continue
        best = v if best is None or v > best else best
    return best if best is not None and best > Version("0") else None


def update(case):
    module = script()
    python = lowest(case["python"])
    INDEX.clear()
    dev = {}
    if case["with_python"]:
        dev["python"] = "^3.8"
    for name, kind, releases, _ in case["packages"]:
        INDEX[name] = (kind, {text: [{"requires_python": r, "filename": "f"} for r in files] for text, files in releases})
        dev[name] = "^0.1"
    failing = {name for name, _, _, fails in case["packages"] if fails}
    commands = []

    def run(args):
        commands.append(list(args))
        if any(a.split("^")[0].rstrip("@") in failing for a in args):
            raise subprocess.CalledProcessError(1, args)
        return subprocess.CompletedProcess(args, 0)

    text = toml.dumps({"tool": {"poetry": {
        "name": "x", "dependencies": {"python": case["python"], "main": "^1.0"}, "group": {"dev": {"dependencies": dev}},
    }}})
    argv = sys.argv
    with tempfile.TemporaryDirectory(prefix="c24-") as d:
        path = os.path.join(d, "pyproject.toml")
        with open(path, "w") as f:
            f.write(text)
        try:
            HANDLER.append(run)
            for n in CALLS:
                setattr(subprocess, n, command)
            sys.argv = [SCRIPT, path] + (["--poetry_path", case["poetry"]] if case["poetry"] else [])
            module.main()
        finally:
            sys.argv = argv
            HANDLER.pop()
            for n, fn in CALLS.items():
                setattr(subprocess, n, fn)
        with open(path) as f:
            require(f.read() == text, "the script itself changes pyproject.toml")
    options = [[]]
    for name in dev:
        if name != "python":
            # releases whose required Python is invalid are for no Python, or for any
            found = {expected(INDEX[name][0], INDEX[name][1], python, invalid) for invalid in (False, True)}
            options = [o + ([(name, v)] if v is not None else []) for o in options for v in found]
    wanted = options[0]
    got = []
    for c in commands:
        require(c[0] == (case["poetry"] or "poetry") and c[1] == "add", "the script runs {!r}", c)
        require(c[2:-1] in (["--group", "dev"], ["--group=dev"], ["-G", "dev"]), "the script runs {!r}", c)
        name, _, v = c[-1].partition("^")
        got.append((name.rstrip("@"), Version(v)))
    require(
        got in options, "for Python {}, the releases\n  {}\n  lead to {}, expected {}", python, dumps(case["packages"]),
        ["%s^%s" % x for x in got], ["%s^%s" % x for x in wanted],
    )
    big = any(len(r) > 1 for _, _, r, _ in case["packages"])
    return big, ["updated %d of %d" % (len(wanted), len(case["packages"]))] + sorted({k for _, k, _, _ in case["packages"]})


PYTHON = [
    ">=3.8,<4.0", ">=3.8", ">=3.7,<3.12", ">=3.8.1,<4.0", ">3.8,<4", "~=3.9", "==3.8.*", ">=3.9,!=3.9.0", ">=3.10", ">=3.10,<4.0", ">=3.11.4",
    ">=3.8.12,<3.9", ">=3.12,<4.0", "~=3.9.10", ">=3,<4", ">=2.7,!=3.0.*,!=3.1.*", "<4.0,>=3.6", "==3.11.*",
    ">=3.7.17,<4", ">=3.8.19", "~=3.6.15", ">=3.13", ">=3.14,<4", ">=3.5.10,!=3.5.10", "^3.7.16",
    "^3.8", "^3.8.1", "^3.10", "^3", "^3.9.5",
]
INVALID = ["3.6", ">=3.6, ~3.8", "~=3", "python>=3.6", ">=3.x", "any", ">= 3.6 <4", "^3.6"]
REQUIRES = [
    None, None, "", ">=3", ">=3.6", ">=3.7", ">=3.8", ">=3.8.1", ">=3.9", ">=3.10", ">=3.11", ">=3.12", "<3.9", ">=3.6,<4", ">=3.7, <3.10",
    ">=2.7, !=3.0.*, !=3.1.*, !=3.2.*", ">=3.6.*", "!=3.9.0,>=3.7", ">2.7", "<3",
    ">=3.6,<3.8", ">=3.6,<3.9", ">=3.7,<3.10", ">=3.5, <3.7", "<3.12,>=3.8", ">=3.6,!=3.8.0,!=3.10.0", ">=3.6,!=3.8.1,<4", "~=3.8", "~=3.8.0", "==3.9.0",
    ">=3.7,!=3.8.*,!=3.9.*", "<=3.8", "<=3.9.0", "<=3.11.4,>=3.6", "===3.8.0", "==3.8.*", "==3.9.*", ">=3.7,!=3.8.*", "!=3.10.*,!=3.11.*", ">=3.6.*, !=3.9.*, <4.0.*", ">3.7.*", "<3.9.*",
]
number = st.integers(0, 12)


@st.composite
def version(draw):
    parts = [draw(number) for _ in range(draw(st.integers(1, 4)))]
    if draw(st.integers(0, 7)) == 7:
        parts[0] = draw(st.sampled_from([2019, 2023, 100]))
    s = ".".join(map(str, parts))
    kind = draw(st.sampled_from(["plain"] * 8 + ["pre", "dev", "post", "zeros", "v", "dash", "bad"]))
    if kind == "pre":
        s += draw(st.sampled_from(["a1", "b2", "rc1", ".alpha", "-beta"]))
    elif kind == "dev":
        s += ".dev%d" % draw(number)
    elif kind == "post":
        s += draw(st.sampled_from([".post1", "-1", ".post2", "-post3"]))
    elif kind == "zeros":
        s = ".".join("%02d" % p for p in parts)
    elif kind == "v":
        s = "v" + s
    elif kind == "dash":
        s += draw(st.sampled_from(["-final", "-release", "_x", "-py3"]))
    elif kind == "bad":
        s = draw(st.sampled_from(["latest", "", "1..2", "a.b", "2.0-custom"]))
    return s


@st.composite
def family(draw):
    """Releases with nearly the same numbers."""
    parts = [draw(st.integers(0, 3)) for _ in range(draw(st.integers(1, 3)))]
    s = ".".join(map(str, parts))
    more = ".".join(map(str, parts[:-1] + [parts[-1] + 1]))
    near = [
        s, s + ".0", s + ".1", s + ".0.1", s + ".post1", s + ".post2", s + ".post10", s + "-1", s + "rc1", s + "a2", s + ".dev3", more, more + "rc1",
        more + ".dev1", more + ".post1", "1!" + s, "1!" + s + ".post1", "0!" + s + ".post3", s + ".post1.dev2", s + ".10", s + ".9",
    ]
    files = st.lists(st.sampled_from([None, ">=3", "", ">=3.6", "<3.9", ">=3.10"]), min_size=1, max_size=2)
    return draw(st.lists(st.tuples(st.sampled_from(near), files).map(list), min_size=1, max_size=5, unique_by=lambda x: x[0]))


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(["pytest", "black", "tox-ini", "isort", "py2", "a.b", "x_y", "python-dateutil", "pythonnet", "types-python", "xpython", "poetry", "a", "Z9"]), unique=True, min_size=1, max_size=draw(st.sampled_from([4, 4, 12]))))
    files = st.lists(st.sampled_from(REQUIRES * 4 + INVALID), max_size=3)
    packages = []
    for n in names:
        kind = draw(st.sampled_from(["ok"] * 8 + ["offline", "missing", "broken", "no releases"]))
        alike = draw(st.integers(0, 2)) == 2
        releases = [] if kind != "ok" else draw(family()) if alike else draw(st.lists(st.tuples(version(), files).map(list), max_size=6, unique_by=lambda x: x[0]))
        packages.append([n, kind, releases, draw(st.integers(0, 6)) == 6])
    return {
        "python": draw(st.sampled_from(PYTHON)), "packages": packages, "with_python": draw(st.booleans()),
        "poetry": draw(st.sampled_from([None, None, "/opt/poetry"])),
    }


def floors(tier):
    """One release per minor version of Python: the one chosen tells the lowest Python of the project."""
    for python in PYTHON:
        for patch in ("", ".1", ".5", ".12", ".17"):
            releases = [["1.%d" % m, [">=3.%d%s" % (m, patch)]] for m in range(0, 16)]
            for order in (releases, releases[::-1]):
                yield {"python": python, "packages": [["p", "ok", order, False]], "with_python": False, "poetry": None}
        # an old release for all, and one that needs some Python
        for requires in REQUIRES[3:]:
            releases = [["1.0", [">=2"]], ["2.0", [requires]]]
            yield {"python": python, "packages": [["p", "ok", releases, False]], "with_python": False, "poetry": None}


PARTS = [
    Part("lowest Python", update, cases=floors),
    Part("indices", update, cases(), quick=1200, thorough=20000),
]
