"""Shared vocabulary of the checks: violations, library access, small utilities."""
import json
import os
import subprocess
import sys


class Violation(Exception):
    """The property does not hold on this case (the message says what was observed)."""


class Skip(Exception):
    """The case is outside of the domain of the property."""


def require(condition, message, *args):
    """Raise a violation unless the condition holds."""
    if not condition:
        raise Violation(message.format(*args) if args else message)


def freeze(x):
    """Turn nested lists into nested tuples."""
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    return x


def _plain(x):
    try:
        return list(x)
    except TypeError:
        return repr(x)


def dumps(x):
    """Canonical JSON."""
    return json.dumps(x, sort_keys=True, default=_plain)


def interpreter(module, request, hashseed):
    """What 'other_side' of the module answers to the request, in another interpreter with the given hash seed."""
    p = subprocess.run(
        [sys.executable, "-B", "-c", "from pbt.props import {0}; {0}.other_side()".format(module)], input=json.dumps(request).encode(),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(hashseed)), timeout=300,
    )
    if p.returncode == 0:
        return json.loads(p.stdout.decode())
    trace = p.stderr.decode()
    from .spec import REPO

    if 'File "%s%s' % (os.path.abspath(REPO), os.sep) in trace or "Violation" in trace:
        raise Violation("in another interpreter with hash seed %s: %s" % (hashseed, trace.strip().splitlines()[-1]))
    raise RuntimeError("the other interpreter failed: %s" % trace)
