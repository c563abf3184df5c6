#!/usr/bin/env python3
"""dev/orig.py FILE [FUNC...]: code without docstrings; lines of our own fix commits are marked '*'"""
import ast, subprocess, sys
f = "/repo/dynetworkx/" + sys.argv[1]
want = sys.argv[2:]
src = open(f).read().split("\n")
bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", f], text=True).split("\n")
root = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
BASE = set(subprocess.check_output(["git", "-C", "/repo", "rev-list", "9c230a6"], text=True).split())
ours = {i + 1 for i, l in enumerate(bl) if l and l.split()[0].lstrip("^") not in BASE and l.split()[0].lstrip("^") not in {b[:39] for b in BASE}}
t = ast.parse("\n".join(src))
doc = set()
for n in ast.walk(t):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and ast.get_docstring(n) is not None:
        d = n.body[0]
        doc |= set(range(d.lineno, d.end_lineno + 1))
fs = [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and (not want or n.name in want)]
for n in fs:
    for i in range(n.lineno, n.end_lineno + 1):
        if i not in doc and src[i - 1].strip():
            print(("*" if i in ours else " ") + f"{i:5d} {src[i-1]}")
