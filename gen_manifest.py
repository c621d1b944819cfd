#!/usr/bin/env python3
"""Writes MANIFEST.json from the harnesses present (run by hand after adding one)."""
import json
import os
import ast

ROOT = os.path.dirname(os.path.abspath(__file__))


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return ast.literal_eval(n.value)
    return ""


props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    path = os.path.join(ROOT, "harness", p.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    tree = ast.parse(open(path).read())
    tree.body = [n for n in tree.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "technique": "bounded symbolic execution of the real Python source (AST-instrumented from /repo on every run); "
                     "path feasibility and assertions decided by z3 over all values within the bounds; every "
                     "counterexample replayed against the uninstrumented code",
        "level": "model_checking",
        "level_note": "Bounds: " + const(tree, "BOUNDS") + ". Outside: " + const(tree, "OUTSIDE") + ".",
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --self-test", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
