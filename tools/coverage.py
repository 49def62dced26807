"""Which lines of yaocptool no check reaches: VERIF_COV=DIR ./run.sh ...; tools/coverage.py DIR [file]"""
import ast
import glob
import json
import os
import sys

root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "yaocptool")
hit = {}
for path in glob.glob(os.path.join(sys.argv[1], "*.json")):
    for name, line in json.load(open(path)):
        hit.setdefault(name, set()).add(line)
for path in sorted(glob.glob(root + "/**/*.py", recursive=True)):
    name = path[len(root) + 1:]
    if len(sys.argv) > 2 and sys.argv[2] not in name:
        continue
    text = open(path).read().splitlines()
    body = set()
    for fn in ast.walk(ast.parse("\n".join(text))):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for st in ast.walk(fn):
                if isinstance(st, ast.stmt) and st is not fn and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    body.add(st.lineno)
    miss = sorted(body - hit.get(name, set()))
    print(f"{name}: {len(body) - len(miss)}/{len(body)}")
    if len(sys.argv) > 2:
        for n in miss:
            print(f"   {n}: {text[n - 1]}")
