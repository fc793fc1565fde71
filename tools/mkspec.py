#!/usr/bin/env python3
"""One-off generator of the specification functions in /verif/ksspec (frozen; never run by a check).

The command specifications state what each command line means: which options a version has, which field each
sets, when a line is refused.  They were taken from the reviewed base tree, without help texts, documentation
and writers, and are frozen here; defects found in the base tree were corrected in both places."""
import ast, os, re, sys, json
SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/pykickstart"
DST = "/verif/ksspec"
DROPM = re.compile(r"^(__str__|_get.*Str|_getArgsAsStr|_.*AsStr|__eq__|__ne__)$")

class T(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if DROPM.match(n.name) and n.name not in ("__eq__", "__ne__"):
            return None
        self.generic_visit(n)
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
        return n
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:]
        n.body = n.body or [ast.Pass()]
        return n
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Attribute) and n.target.attr in ("description", "epilog", "help"):
            return ast.Pass()
        return n
    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        if isinstance(t, ast.Attribute) and t.attr in ("description", "epilog", "help"):
            return ast.Pass()
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("add_argument", "remove_argument"):
            n.keywords = [k for k in n.keywords if k.arg not in ("help", "version", "metavar", "notest", "deprecated", "introduced", "removed")]
        if isinstance(n.func, ast.Name) and n.func.id == "KSOptionParser":
            n.keywords = [k for k in n.keywords if k.arg == "prog"]
        return n
    def visit_ImportFrom(self, n):
        if n.module and n.module.startswith("pykickstart"):
            n.module = "ksspec" + n.module[len("pykickstart"):]
        return n

for f in sorted(os.listdir(SRC + "/commands")):
    if not f.endswith(".py") or f == "__init__.py":
        continue
    t = ast.fix_missing_locations(T().visit(ast.parse(open(SRC + "/commands/" + f).read())))
    if t.body and isinstance(t.body[0], ast.Expr):
        t.body = t.body[1:]
    open(DST + "/commands/" + f, "w").write(ast.unparse(t) + "\n")
open(DST + "/commands/__init__.py", "w").write("")
# the per-version registry, as a table
sys.path.insert(0, os.path.dirname(SRC))
from pykickstart.version import versionMap
from pykickstart.handlers.control import commandMap, dataMap
reg = {"versions": dict(versionMap), "commands": {}, "data": {}}
for n, v in versionMap.items():
    if v in commandMap:
        reg["commands"][str(v)] = {c: [k.__module__.split(".")[-1], k.__name__] for c, k in sorted(commandMap[v].items())}
        reg["data"][str(v)] = {c: [k.__module__.split(".")[-1], k.__name__] for c, k in sorted(dataMap[v].items())}
json.dump(reg, open(DST + "/registry.json", "w"), indent=0, sort_keys=True)
t = ast.parse(open(SRC + "/constants.py").read())
open(DST + "/constants.py", "w").write(ast.unparse(ast.Module([n for n in t.body if isinstance(n, (ast.Assign,))], [])) + "\n")
