"""C21: the script that copies the dependencies to tox.ini changes nothing else."""
import configparser
import contextlib
import importlib.util
import io
import logging
import os
import shutil
import sys
import tempfile

import toml
from hypothesis import strategies as st
from packaging.requirements import Requirement
from packaging.specifiers import InvalidSpecifier, SpecifierSet
from packaging.version import Version

from ..core import Violation, dumps, require
from ..engine import Part
from ..spec import REPO

from pathlib import Path

ID = "C21"
RULE = (
    "a case is a pyproject.toml with main and development dependencies, and a tox.ini with several sections and lists of "
    "requirements, both written in a scratch folder; the script is run on them, once and twice, and the files are parsed "
    "again; or a caret version with versions around its bounds; non-trivial: some requirement has to be updated, and some "
    "has to be kept"
)
ASSUMPTIONS = [
    "the upper bound that a caret stands for is not stated beyond its major version",
    "tox.ini has no comments, which the ini parser of Python does not keep",
]

_module = []


def script():
    if not _module:
        spec = importlib.util.spec_from_file_location("sync_tox_ini", os.path.join(REPO, "scripts", "sync-tox-ini.py"))
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        logging.disable(logging.CRITICAL)
        _module.append(module)
    return _module[0]


def caret(version):
    """The parts of a caret version."""
    return tuple(map(int, version[1:].split(".")))


def bounded(version, specifier):
    """Is the specifier a fair reading of the caret version?"""
    parts = caret(version)
    s = SpecifierSet(specifier)
    text = ".".join(map(str, parts))
    require(Version(text) in s, "{!r}, from {!r}, excludes its lower bound", specifier, version)
    bigger = list(parts)
    bigger[-1] += 1
    require(Version(".".join(map(str, bigger))) in s, "{!r}, from {!r}, excludes {}", specifier, version, bigger)
    for i in range(len(parts)):
        if parts[i] > 0:
            lower = list(parts)
            lower[i] -= 1
            for rest in (0, 99):
                low = ".".join(map(str, lower[: i + 1] + [rest] * (len(parts) - i - 1)))
                if tuple(map(int, low.split("."))) < parts:
                    require(Version(low) not in s, "{!r}, from {!r}, includes {}", specifier, version, low)
    for n in (1, 2, 10):
        high = ".".join(map(str, [parts[0] + n] + [0] * (len(parts) - 1)))
        require(Version(high) not in s, "{!r}, from {!r}, includes {}", specifier, version, high)


def numbers(text):
    return [int(x) for x in text.split(".")]


def version_of(parts):
    return Version(".".join(map(str, parts)))


def translated(version, specifier):
    """Is the specifier a fair reading of a version that is not a caret?"""
    try:
        s = SpecifierSet(specifier)
    except InvalidSpecifier:
        raise Violation("%r becomes %r, which pip does not take" % (version, specifier))
    admit = lambda parts: require(version_of(parts) in s, "{!r}, from {!r}, excludes {}", specifier, version, parts)
    exclude = lambda parts: require(version_of(parts) not in s, "{!r}, from {!r}, includes {}", specifier, version, parts)
    if version == "*":
        for parts in ([0], [0, 0, 1], [1, 2], [3, 99, 7, 1], [2022, 1]):
            admit(parts)
    elif version.endswith(".*"):
        parts = numbers(version[:-2])
        for more in ([], [0], [1], [9, 3]):
            admit(parts + more)
        exclude(parts[:-1] + [parts[-1] + 1])
        exclude(parts[:-1] + [parts[-1] * 10 + 1000])
        if parts[-1]:
            exclude(parts[:-1] + [parts[-1] - 1, 99])
    elif version[0] == "~":
        parts = numbers(version[1:])
        fixed = min(len(parts), 2)
        admit(parts)
        admit(parts + [5])
        admit(parts[:-1] + [parts[-1] + 1] if len(parts) > 2 else parts + [99])
        for n in (1, 2, 10):
            exclude(parts[:fixed - 1] + [parts[fixed - 1] + n] + [0] * (len(parts) - fixed))
            exclude([parts[0] + n])
        for i in range(len(parts)):
            if parts[i]:
                exclude(parts[:i] + [parts[i] - 1, 99])
    else:
        parts = numbers(version)
        admit(parts)
        for i in range(len(parts)):
            exclude(parts[:i] + [parts[i] + 1] + parts[i + 1:])
            if parts[i]:
                exclude(parts[:i] + [parts[i] - 1] + parts[i + 1:])
        exclude(parts + [1])


def versions(case):
    v = case["version"]
    parse = script().parse_version
    if v[0].isdigit() or v == "*" or v[0] == "~" and v[1] != "=":
        translated(v, parse(v))
        return True, ["translated " + v[0] if not v[0].isdigit() else "a number"]
    if not v.startswith("^"):
        require(parse(v) == v, "{!r} is rewritten as {!r}", v, parse(v))
        return True, ["as is"]
    if len(caret(v)) not in (2, 3, 4):
        try:
            got = parse(v)
        except ValueError:
            return True, ["unsupported"]
        raise Violation("%r is not supported, and becomes %r" % (v, got))
    bounded(v, parse(v))
    return True, ["caret %d" % len(caret(v))]


def read(path):
    config = configparser.ConfigParser(interpolation=None)
    config.read(path)
    return {s: dict(config[s]) for s in config.sections()}


def run(pyproject, tox):
    module = script()
    argv = sys.argv
    sys.argv = ["sync-tox-ini.py", pyproject, tox]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            module.main()
    finally:
        sys.argv = argv


def lines(value):
    return value.split("\n")


def sync(case):
    folder = tempfile.mkdtemp(prefix="pbt-tox-")
    try:
        pyproject, tox = os.path.join(folder, "pyproject.toml"), os.path.join(folder, "tox.ini")
        tool = {"poetry": {"dependencies": dict(case["main"])}}
        if case["dev"] or not case.get("nogroup"):
            tool["poetry"]["group"] = {"dev": {"dependencies": dict(case["dev"])}}
        with open(pyproject, "w") as f:
            toml.dump({"tool": tool}, f)
        with open(pyproject) as f:
            text = f.read()
        with open(tox, "w") as f:
            for name, options in case["sections"]:
                f.write("[%s]\n" % name)
                for k, v in options:
                    f.write("%s = %s\n" % (k, "\n    ".join(v)))
                f.write("\n")
        before = read(tox)
        dependencies = dict(case["main"], **dict(case["dev"]))
        require(
            script().get_dependencies(Path(pyproject)) == dependencies, "the dependencies {} are read as {}",
            dependencies, script().get_dependencies(Path(pyproject)),
        )
        run(pyproject, tox)
        after = read(tox)
        with open(pyproject) as f:
            require(f.read() == text, "pyproject.toml is changed: {}", dumps(case))
        require(list(before) == list(after), "the sections {} become {}", list(before), list(after))
        updated = kept = 0
        for section in before:
            old, new = before[section], after[section]
            if not section.startswith("testenv"):
                require(old == new, "the section {} is changed from {} to {}", section, old, new)
                continue
            require(
                {k: v for k, v in old.items() if k != "deps"} == {k: v for k, v in new.items() if k != "deps"},
                "other options of {} are changed from {} to {}", section, old, new,
            )
            if "deps" not in old:
                require("deps" not in new, "{} had no list of requirements, and has {!r}", section, new.get("deps"))
                continue
            was, now = lines(old["deps"]), lines(new.get("deps", ""))
            require(len(was) == len(now), "the requirements {} become {}", was, now)
            for x, y in zip(was, now):
                try:
                    name = Requirement(x).name
                except Exception:
                    name = None
                version = dependencies.get(name)
                if not isinstance(version, str) or (version.startswith("^") and len(caret(version)) not in (2, 3, 4)):
                    require(x == y, "{!r} becomes {!r}, and the dependencies are {}", x, y, dumps(dependencies))
                    kept += 1
                    continue
                require(y.startswith(name), "{!r} becomes {!r}", x, y)
                specifier = y[len(name):]
                asked = Requirement(x)
                if asked.extras or asked.marker:
                    result = Requirement(y)
                    require(
                        (result.extras, result.marker) == (asked.extras, asked.marker), "{!r} becomes {!r}, without its extras or marker", x, y
                    )
                    specifier = specifier.partition("]")[2] if asked.extras else specifier
                    specifier = specifier.partition(";")[0].rstrip()
                if version.startswith("^"):
                    bounded(version, specifier)
                elif version[0].isdigit() or version == "*" or version[0] == "~" and version[1] != "=":
                    translated(version, specifier)
                else:
                    require(specifier == version, "{!r} becomes {!r}, and the dependencies are {}", x, y, dumps(dependencies))
                updated += 1
        run(pyproject, tox)
        require(read(tox) == after, "running twice gives {}, and then {}", after, read(tox))
        return updated > 0 and kept > 0, ["updated %d" % min(updated, 4), "kept %d" % min(kept, 4)]
    finally:
        shutil.rmtree(folder)


NAMES = ["lark", "black", "mypy", "pytest", "pytest-cov", "hypothesis", "Jinja2", "types-toml", "my_dep", "a.b", "pytest_cov"]
NUMBER = st.one_of(st.integers(0, 3), st.integers(0, 120))


@st.composite
def version(draw):
    kind = draw(st.sampled_from(["caret", "caret", "caret", "odd", "plain", "number", "tilde", "any"]))
    if kind == "any":
        return draw(st.sampled_from(["*", "1.*", "0.2.*"])) if draw(st.booleans()) else "*"
    if kind in ("number", "tilde"):
        many = draw(st.sampled_from([1, 2, 3, 3] if kind == "tilde" else [1, 2, 3, 3, 4]))
        return ("~" if kind == "tilde" else "") + ".".join(str(draw(NUMBER)) for _ in range(many))
    if kind == "caret":
        return "^" + ".".join(str(draw(NUMBER)) for _ in range(draw(st.sampled_from([2, 3, 3, 4]))))
    if kind == "odd":
        return "^" + ".".join(str(draw(NUMBER)) for _ in range(draw(st.sampled_from([1, 5]))))
    return draw(st.sampled_from(["==", ">=", "~=", "<"])) + "%d.%d" % (draw(NUMBER), draw(NUMBER))


VALUES = [
    ["", "PYTHONPATH = {toxinidir}", "A=1"], ["a #1"], ["a ; b"], ["echo 'x  #y' ; z"], [""], ["100%", "%(here)s", "%%"], ["a: b", "c = d"], ["*"], ["true", "false"],
    ["{posargs:tests} --cov={toxinidir}/x"], ["", "black==1.0", "mypy"], ["lark"], ["=="], ["= 1"], ["\u00e9t\u00e9 \u65e5"], ["x" * 300], ["a" + "  " + "b"],
    ["", "-r {toxinidir}/x.txt", "[section]"], ["a,b,", "c"], ["'quoted'", '"twice"'], ["back\\slash \\"],
] + [["", *["word%d" % i for i in range(60)]]]


@st.composite
def projects(draw):
    def table():
        out = []
        for n in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=4)):
            v = draw(version())
            out.append([n, {"version": v, "optional": True} if draw(st.integers(0, 5)) == 5 else v])
        return out

    def requirement():
        n = draw(st.sampled_from(NAMES + ["unknown", "black-extra", "my-dep", "PyTest", "a-b", "lar", "larks"]))
        kind = draw(st.integers(0, 5))
        if kind == 0:
            return n
        if kind == 2:
            extras = draw(st.sampled_from(["", "", "[d]", "[a,b]"]))
            marker = draw(st.sampled_from(["", "; python_version < '3.9'", ' ; sys_platform == "win32" and extra == "x"']))
            return n + extras + draw(st.sampled_from(["", "==1.0", ">=1.2,<2"])) + marker
        if kind == 1:
            return draw(st.sampled_from(["-r requirements.txt", "{[testenv]deps}", "./local", n + " @ file:///x", "py38: " + n + "==1.0", "-c " + n, "--pre", n + "==1.0 junk", n + "==1.0  # pinned", n + "==1.0 ; # x", "git+https://x.y/z.git#egg=" + n]))
        return n + draw(st.sampled_from(["==1.0", ">=1.2,<2", " >= 3", "~=0.1.2"]))

    sections = []
    for s in draw(st.lists(st.sampled_from(["tox", "testenv", "testenv:py3.8", "testenv:lint", "flake8", "mytestenv"]), unique=True, min_size=1)):
        options = []
        if draw(st.integers(0, 4)):
            deps = [requirement() for _ in range(draw(st.sampled_from([1, 2, 3, 4, 4, 5, 12, 40])))]
            options.append(["deps", [""] + deps if draw(st.booleans()) else deps])
        if draw(st.booleans()):
            options.append(["commands", ["", "pytest tests", "black==1.0"]])
        if draw(st.booleans()):
            options.append(["skip_install", ["True"]])
        for key in draw(st.lists(st.sampled_from(["setenv", "passenv", "description", "allowlist_externals", "depends", "deps2", "xdeps", "x-y", "a b"]), unique=True, max_size=3)):
            options.append([key, draw(st.sampled_from(VALUES))])
        if draw(st.booleans()):
            options.reverse()
        sections.append([s, options])
    return {"main": table(), "dev": table(), "sections": sections}


PARTS = [
    Part("versions", versions, st.fixed_dictionaries({"version": version()}), quick=4000, thorough=50000),
    Part("sync", sync, projects(), quick=2000, thorough=20000),
]
