"""C23: the copyright check reports exactly the files without the notice."""
import contextlib
import io
import os
import runpy
import shutil
import sys
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from ..core import dumps, require
from ..engine import Part
from ..spec import REPO

ID = "C23"
RULE = (
    "a case is a scratch repository with Python files in the folders of the package, of the tests and of the scripts, and "
    "elsewhere, each of which begins with the notice, or with a notice changed in a character or a line, or after something "
    "else; the script is run in it; non-trivial: some file has the notice, and some has not"
)
ASSUMPTIONS = ["files are UTF-8 text with Unix line endings", "the script is run from the root of the repository"]

SCRIPT = os.path.join(REPO, "scripts", "check_copyright.py")
SHEBANG = "#!/usr/bin/env python3\n"
CODING = "# -*- coding: utf-8 -*-\n"
NOTICE = """# Copyright 2021-2024 The Pylogics contributors
#
# ------------------------------
#
# Permission is hereby granted, free of charge, to any person obtaining a copy
# of this software and associated documentation files (the "Software"), to deal
# in the Software without restriction, including without limitation the rights
# to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
# copies of the Software, and to permit persons to whom the Software is
# furnished to do so, subject to the following conditions:
#
# The above copyright notice and this permission notice shall be included in all
# copies or substantial portions of the Software.
#
# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
# OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
# SOFTWARE.
"""
FULL = CODING + NOTICE
BODY = '\n"""A module."""\nx = 1\n'
FOLDERS = ["pylogics_modalities", "pylogics_modalities/syntax", "pylogics_modalities/a/b", "tests", "tests/x/y", "scripts", "scripts/more", "tests/.hidden", "scripts/__pycache__", "pylogics_modalities/with space"]
ELSEWHERE = ["docs", "other", "other/tests", "."]


def content(kind, where, char):
    """The text of a file, and whether it has the notice."""
    body = BODY
    if kind == "good":
        return FULL + body, True
    if kind == "shebang":
        return SHEBANG + FULL + body, True
    if kind == "bare":
        return FULL, True
    if kind == "empty":
        return "", False
    if kind == "none":
        return body, False
    if kind == "late":
        return "\n" * (where % 3 + 1) + FULL + body, False
    if kind == "code first":
        return "x = 1\n" + FULL + body, False
    if kind == "docstring first":
        return '"""A module."""\n' + FULL + body, False
    if kind == "indented":
        return " " + FULL + body, False
    if kind == "no coding":
        return NOTICE + body, False
    if kind == "twice":
        return SHEBANG + SHEBANG + FULL + body, False
    lines = FULL.splitlines(True)
    i = where % len(lines)
    if kind == "drop line":
        if i + 1 < len(lines) and lines[i] == lines[i + 1]:
            return FULL, True
        return "".join(lines[:i] + lines[i + 1:]) + body, False
    if kind == "blank line":
        return "".join(lines[:i] + ["\n"] + lines[i:]) + body, False
    if kind == "repeat line":
        return "".join(lines[:i + 1] + lines[i:]) + body, i == len(lines) - 1
    if kind == "case":
        new = lines[i].swapcase() if where % 2 else lines[i].lower()
        return "".join(lines[:i] + [new] + lines[i + 1:]) + body, new == lines[i]
    if kind == "spaces":
        new = lines[i].replace("\n", char + "\n") if where % 2 else lines[i].replace(" ", "  ", 1)
        return "".join(lines[:i] + [new] + lines[i + 1:]) + body, new == lines[i]
    if kind == "join":
        return "".join(lines[:i] + [lines[i].rstrip("\n") + " "] + lines[i + 1:]) + body, False
    if kind == "swap lines":
        j = (where // 25 + i) % len(lines)
        new = list(lines)
        new[i], new[j] = new[j], new[i]
        return "".join(new) + body, new == lines
    if kind == "years":
        new = FULL.replace("2021-2024", ["2021", "2021-2023", "2020-2024", "2021-2025", "2024"][where % 5])
        return new + body, False
    if kind == "other shebang":
        return ["#!/usr/bin/python3\n", "#!/usr/bin/env python\n", "#! /usr/bin/env python3\n", "\ufeff", "#!/usr/bin/env python3 -u\n"][where % 5] + FULL + body, False
    if kind == "cut":
        return FULL[: where % len(FULL)], False
    # a character replaced
    k = where % len(FULL)
    new = FULL[:k] + char + FULL[k + 1:]
    return new + body, new == FULL


KINDS = ["none", "late", "code first", "docstring first", "indented", "no coding", "twice", "drop line", "blank line", "repeat line",
         "cut", "character", "character", "empty", "case", "spaces", "join", "swap lines", "years", "other shebang"]


def run(root):
    """The exit status and the lines that the script prints."""
    here, argv, out = os.getcwd(), sys.argv, io.StringIO()
    os.chdir(root)
    sys.argv = [SCRIPT]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(SCRIPT, run_name="__main__")
    except SystemExit as e:
        status = 0 if e.code is None else e.code
    else:
        status = 0
    finally:
        os.chdir(here)
        sys.argv = argv
    return status, out.getvalue().splitlines()


def check(case):
    root = tempfile.mkdtemp(prefix="c23-")
    try:
        bad, good, before = set(), set(), {}
        for x in case["files"]:
            path = Path(x["folder"]) / x["name"]
            if str(path) in before:
                continue
            text, ok = content(x["kind"], x["where"], x["char"])
            full = Path(root) / path
            full.parent.mkdir(parents=True, exist_ok=True)
            full.write_text(text, encoding="utf-8")
            before[str(path)] = text
            if x["folder"] in ELSEWHERE or path.suffix != ".py" or path == Path("scripts", "whitelist.py"):
                continue
            (good if ok else bad).add(str(path))
        status, lines = run(root)
        require((status == 0) is (not bad), "the check exits with {!r}, the bad files are {} among {}", status, sorted(bad), dumps(case["files"]))
        require(status in (0, 1), "the check exits with {!r}", status)
        printed = [str(Path(s)) for s in lines if s.strip() in before or str(Path(s.strip() or "?")) in before]
        require(sorted(printed) == sorted(bad), "the check names {}, the bad files are {}: {}", sorted(printed), sorted(bad), dumps(case["files"]))
        for p, text in before.items():
            require((Path(root) / p).read_text(encoding="utf-8") == text, "the check changes {}", p)
        require(run(root) == (status, lines) or len(bad) > 1, "checking twice gives two answers: {!r}", lines)
    finally:
        shutil.rmtree(root)
    return bool(good) and bool(bad), ["bad %d" % min(len(bad), 4), "good %d" % min(len(good), 4)]


def own(case):
    """A single file."""
    text, ok = content(case["kind"], case["where"], case["char"])
    with tempfile.TemporaryDirectory(prefix="c23-") as d:
        path = Path(d, *case["folder"].split("/"), "some file.py")
        path.parent.mkdir(parents=True)
        path.write_text(text, encoding="utf-8")
        status, lines = run(d)
    named = any(line.endswith("some file.py") for line in lines)
    require((status == 0, named) == (ok, not ok), "the check exits with {!r}, for a file made as {}: {!r}", status, dumps(case), text[:80])
    return True, [case["kind"], "good" if ok else "bad"]


NAMES = ["__init__.py", "a.py", "test_b.py", "whitelist.py", "notes.txt", "data.pyi", "conf.py", "README", ".dot.py", "_.py", "with space.py", "a.b.py", "setup.py", "x.py.txt"]


@st.composite
def entry(draw):
    kind = draw(st.sampled_from(["good", "good", "good", "shebang", "bare"] + KINDS if draw(st.booleans()) else ["good", "shebang", "bare"]))
    return {
        "folder": draw(st.sampled_from(FOLDERS * 2 + ELSEWHERE)), "name": draw(st.sampled_from(NAMES)), "kind": kind,
        "where": draw(st.integers(0, 2000)), "char": draw(st.sampled_from("x.#(\n é\tX")),
    }


def every(tier):
    for kind in ["good", "shebang", "bare"] + KINDS:
        for where in range(25):
            yield {"kind": kind, "where": where, "char": "x", "folder": FOLDERS[where % len(FOLDERS)]}
    for where in range(0, len(FULL), 1 if tier == "thorough" else 3):
        yield {"kind": "character", "where": where, "char": "~", "folder": "tests"}
        yield {"kind": "cut", "where": where, "char": "~", "folder": "tests"}


def crowd(case):
    """Many files."""
    files = []
    for i in range(case["n"]):
        bad = i % case["every"] == 0
        files.append({
            "folder": FOLDERS[i * 7 % len(FOLDERS)], "name": "m%d.py" % i, "where": i * 13,
            "kind": (KINDS[i % len(KINDS)] if bad else ["good", "shebang", "bare"][i % 3]), "char": "~",
        })
    return check({"files": files})


def crowds(tier):
    for n in (20, 70, 150) if tier == "quick" else (10, 20, 40, 80, 150, 300, 600):
        for every in (1, 2, 5, n + 1, 1000):
            yield {"n": n, "every": every}


PARTS = [
    Part("crowds", crowd, cases=crowds),
    Part("texts", own, cases=every),
    Part("repositories", check, st.fixed_dictionaries({"files": st.lists(entry(), min_size=1, max_size=8)}), quick=2500, thorough=40000),
]
