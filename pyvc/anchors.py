"""Private names of the code which the contracts hold on to (to set up a state, or to read one).

anchors.json lists those that existed when the contracts were written (tools/props.py).  If one of them is gone from the
code, a contract that uses it no longer fits the code's inner structure: what it then says is no verdict about behaviour,
and it counts as undecided.
"""
from __future__ import annotations

import ast
import json
import sys
import types
from pathlib import Path

FILE = Path(__file__).with_name("anchors.json")


def private(n):
    return isinstance(n, str) and n.startswith("_") and not n.startswith("__") and len(n) > 2 and n.isidentifier()


def identifiers(root):
    """Every name, attribute, argument and definition in the code below root."""
    out = set()
    for f in Path(root).rglob("*.py"):
        try:
            tree = ast.parse(f.read_text())
        except SyntaxError:
            continue
        parts = {id(v) for n in ast.walk(tree) if isinstance(n, ast.JoinedStr) for v in n.values}
        for n in ast.walk(tree):
            if id(n) in parts:
                continue
            if isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, ast.alias):
                out.add(n.asname or n.name)
            elif isinstance(n, ast.Constant) and private(n.value):
                out.add(n.value)
    return out


def used(driver):
    """Private names in a contract and in the helpers of specs/ it reaches."""
    out, seen, todo, keep = set(), set(), [driver], []

    def code(co, g):
        for n in co.co_names:
            if private(n):
                out.add(n)
            v = g.get(n)
            if v is not None:
                todo.append(v)
            elif n in helpers:
                todo.extend(helpers[n])
        for k in co.co_consts:
            if isinstance(k, types.CodeType):
                code(k, g)
            elif private(k):
                out.add(k)
            elif isinstance(k, tuple):
                out.update(x for x in k if private(x))

    helpers = {}
    for name, m in list(sys.modules.items()):
        if name.startswith("specs."):
            for k, v in vars(m).items():
                helpers.setdefault(k, []).append(v)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        keep.append(x)
        if isinstance(x, types.FunctionType):
            if x.__module__.startswith("specs"):
                code(x.__code__, x.__globals__)
                todo += list(x.__defaults__ or ()) + [c.cell_contents for c in x.__closure__ or () if _full(c)]
        elif isinstance(x, str):
            if private(x):
                out.add(x)
        elif isinstance(x, dict):
            todo += [*x, *x.values()]
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif isinstance(x, type) and x.__module__.startswith("specs"):
            todo += [getattr(v, "fget", None) or getattr(v, "__func__", v) for v in vars(x).values()]
    return out


def _full(cell):
    try:
        cell.cell_contents
    except ValueError:
        return False
    return True


def gone(root):
    """The listed names which the code no longer has."""
    return set(json.loads(FILE.read_text())) - identifiers(root) if FILE.exists() else set()


def write(root, specs):
    """List the private names of the code that occur anywhere in the contracts."""
    names = set()
    for f in Path(specs).glob("*.py"):
        for n in ast.walk(ast.parse(f.read_text())):
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                names.add(n.value)
            elif isinstance(n, (ast.Name)):
                names.add(n.id)
            elif isinstance(n, ast.alias):
                names.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                names.add(n.name)
    keep = sorted(n for n in names & identifiers(root) if private(n))
    FILE.write_text(json.dumps(keep, indent=0) + "\n")
    return keep
