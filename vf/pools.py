"""Value pools of the concrete runs; constants of the code under check are added."""
from __future__ import annotations

import ast
import glob
import os

TEXTS = ["", " ", "x", "a b", "  lead", "trail  ", "\n\t", "A", "true", "false", "True", "FALSE", "1", "0", "-1", "1.5",
         "abc", "été", "日本語", "😀", "<&>\"'", "a,b", "#frag", "http://example.com/a?b=c&d=e#f", "None", "id-1", "2000",
         "2000-01", "2000-01-31", "nan", "inf", "1e3", "clampToGround", "relativeToSeaFloor", "clampToSeaFloor", "x" * 70,
         "line1\nline2", "a\u00a0b", "\u00a0", "\u2003x", "0x10", "1_000", "+5", "ffffffff", "''", '"', "\\", "{a}", "%s", "a.kmz"]
CHARS = list("abzAZ019 .,;:-_#&<>\"'\n\té日😀{}()[]\\/%")
INTS = [0, 1, -1, 2, 3, 4, 5, 7, 10, 12, 28, 31, 59, 60, 90, 99, 100, 128, 180, 255, 256, 360, 365, 1000, 1900, 1999, 2000,
        2024, 9999, 65535, 2**31, -2**31, 10**12]
REALS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -0.25, 0.1, 1 / 3, 90.0, -90.0, 180.0, -180.0, 360.0, 1e-7, 1.23456789012345, 1e15, 1e16,
         123456.789, -122.0822035425683, 37.42228990140251, 1e-300, 1e300, 2.0, 4.0, 100.0]


def make(repo):
    ints, reals, texts = set(INTS), list(REALS), list(TEXTS)
    lengths = {5, 6, 7, 8}
    for f in sorted(glob.glob(os.path.join(repo, "fastkml", "*.py"))):
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except SyntaxError:
            continue
        docs = {id(n.body[0].value) for n in ast.walk(tree)
                if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body
                and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
        for n in ast.walk(tree):
            if not isinstance(n, ast.Constant) or id(n) in docs:
                continue
            v = n.value
            if isinstance(v, bool):
                continue
            if isinstance(v, int):
                ints |= {v - 1, v, v + 1} if abs(v) < 10**9 else {v}
                reals.append(float(v)) if abs(v) < 10**15 else None
                if 0 < v < 40:
                    lengths |= {v, v + 1}
            elif isinstance(v, float):
                reals += [v, v * (1 + 2**-40)]
    seen, rs = set(), []
    for x in reals:
        if repr(x) not in seen:
            seen.add(repr(x))
            rs.append(x)
    return {"ints": sorted(ints), "reals": rs, "texts": texts, "chars": CHARS, "lengths": sorted(lengths)}
