#!/usr/bin/env python3
"""Systematic small changes of the library, to find behaviour the checks do not see.

    tools/mutate.py list FILE [FUNCTION]         what would be changed
    tools/mutate.py run OUT.jsonl [--scale S] [--seed N] [--sample K] [FILE ...]
    tools/mutate.py again OUT.jsonl OUT2.jsonl --scale S      the survivors of OUT once more

Every mutant is a copy of /repo under /tmp; the checks run from copies of /verif there.
"""
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/PyQCodes"
CHECKS = {
    "chan/_kraus.py": "C01 C04 C03 C02 C09 C05 C06 C11 C31 C10",
    "chan/_choi.py": "C08 C09 C04 C01 C11 C29",
    "chan/_coherent.py": "C14 C13",
    "chan/channel.py": "C01 C02 C05 C06 C03 C10 C11 C08 C09 C13",
    "chan/param.py": "C12 C32 C13",
    "_optimize.py": "C13 C26",
    "codes.py": "C15 C16 C17 C18 C20 C21 C22 C23 C24 C25 C19 C30 C33 C31",
    "device_adaptor.py": "C27 C28",
    "find_codes.py": "C26 C28",
    "avgfid/avg_fidelity.py": "C29",
}
FIRST = {   # Checks that look at a function in particular.
    "_gaussian": "C17", "_standard": "C17", "logical_op": "C18", "_matrix_blocks": "C18",
    "encoding_circuit": "C20", "decoding": "C21", "syndrome": "C22", "apply_stab": "C23",
    "logical_circuit": "C23", "concatenate_codes": "C24", "correcting_errors": "C25",
    "encode_krauss": "C19", "normalizer": "C30", "undetect": "C30", "inner_prod": "C16",
    "pauli": "C16", "optimize_encoder": "C28", "estimate": "C28", "StandardBasis": "C32",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*",
       ast.Pow: "*"}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.out, self.where = text, [], []
        self.lines = [0]
        for line in text.encode().split(b"\n"):
            self.lines.append(self.lines[-1] + len(line) + 1)
        self.raw = text.encode()

    def span(self, node):
        return (self.lines[node.lineno - 1] + node.col_offset,
                self.lines[node.end_lineno - 1] + node.end_col_offset)

    def src(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()

    def add(self, node, new, kind):
        a, b = self.span(node)
        self.out.append({"line": node.lineno, "a": a, "b": b, "old": self.raw[a:b].decode(),
                         "new": new, "kind": kind, "where": ".".join(self.where)})

    def visit_FunctionDef(self, node):
        self.where.append(node.name)
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for d in node.args.defaults:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.where.pop()

    def visit_ClassDef(self, node):
        self.where.append(node.name)
        for s in node.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.where.pop()

    def visit_Raise(self, node):
        self.add(node, "pass", "drop")

    def visit_Assert(self, node):
        self.add(node, "pass", "drop")
        self.visit(node.test)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call) and "print" not in self.src(node.value.func):
            self.add(node, "pass", "drop")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "pass", "drop")
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1 and type(node.ops[0]) in CMP:
            self.add(node, "(%s %s %s)" % (self.src(node.left), CMP[type(node.ops[0])],
                                           self.src(node.comparators[0])), "compare")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in BIN and not (isinstance(node.left, ast.Constant)
                                         and isinstance(node.left.value, str)):
            if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.JoinedStr):
                return
            self.add(node, "(%s %s %s)" % (self.src(node.left), BIN[type(node.op)],
                                           self.src(node.right)), "binop")
            if isinstance(node.op, (ast.Sub, ast.Mod)):
                self.add(node, "(%s)" % self.src(node.left), "left")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.Not, ast.USub)):
            self.add(node, "(%s)" % self.src(node.operand), "unary")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        op = " or " if isinstance(node.op, ast.And) else " and "
        self.add(node, "(%s)" % op.join("(%s)" % self.src(v) for v in node.values), "bool")
        self.generic_visit(node)

    def visit_If(self, node):
        self.add(node.test, "(not (%s))" % self.src(node.test), "if-not")
        self.add(node.test, "True", "if-true")
        self.add(node.test, "False", "if-false")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node.test, "(not (%s))" % self.src(node.test), "if-not")
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.add(node, str(not v), "const")
        elif isinstance(v, int):
            self.add(node, str(v + 1), "const")
            if v:
                self.add(node, str(v - 1), "const")
        elif isinstance(v, float):
            self.add(node, repr(v * 2 if v else 0.3), "const")
        elif isinstance(v, str) and len(v) == 1:
            self.add(node, repr({"X": "Z", "Z": "X", "Y": "I", "I": "Y"}.get(v, v + "q")), "const")

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ("conj", "copy", "transpose", "swapaxes",
                                                       "flatten", "todense", "astype", "dag"):
            if not node.args or f.attr != "conj":
                self.add(node, self.src(f.value), "unwrap")
        name = self.src(f)
        if name in ("np.conj", "np.array", "np.abs", "abs", "np.real", "list", "np.transpose",
                    "copy.deepcopy", "np.copy", "deepcopy", "np.asarray", "np.unique", "reversed",
                    "sorted", "int", "np.round", "np.sum", "np.sqrt", "tuple", "set") and node.args:
            self.add(node, "(%s)" % self.src(node.args[0]), "unwrap")
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]) \
                and name not in ("range", "isinstance"):
            a, b = self.span(node.args[0])[0], self.span(node.args[1])[1]
            mid = self.raw[self.span(node.args[0])[1]:self.span(node.args[1])[0]].decode()
            self.out.append({"line": node.lineno, "a": a, "b": b, "old": self.raw[a:b].decode(),
                             "new": self.src(node.args[1]) + mid + self.src(node.args[0]),
                             "kind": "swap", "where": ".".join(self.where)})
        self.generic_visit(node)

    def visit_Attribute(self, node):
        if node.attr == "T":
            self.add(node, self.src(node.value), "unwrap")
        self.generic_visit(node)

    def visit_Break(self, node):
        self.add(node, "pass", "drop")

    def visit_Continue(self, node):
        self.add(node, "pass", "drop")

    def visit_JoinedStr(self, node):
        pass


def mutants(path):
    text = open(os.path.join(SRC, path)).read()
    f = Finder(text)
    f.visit(ast.parse(text))
    out = []
    for m in f.out:
        new = f.raw[:m["a"]] + m["new"].encode() + f.raw[m["b"]:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        m.update(file=path, text=new.decode())
        out.append(m)
    return out


def order(m):
    todo = CHECKS[m["file"]].split()
    for key, c in FIRST.items():
        if key in m["where"] and c in todo:
            todo.remove(c)
            todo.insert(0, c)
    return todo


def judge(args):
    i, m, scale = args
    k = mp.current_process()._identity[0]
    repo, verif = "/tmp/mut-repo-%d" % k, "/tmp/mut-verif-%d" % k
    if not os.path.isdir(repo):
        shutil.copytree("/repo", repo, symlinks=True,
                        ignore=shutil.ignore_patterns("__pycache__", ".git"))
        shutil.copytree(HERE, verif, symlinks=True,
                        ignore=shutil.ignore_patterns("__pycache__", ".git", "seeded"))
    p = os.path.join(repo, "PyQCodes", m["file"])
    orig = open(os.path.join(SRC, m["file"])).read()
    open(p, "w").write(m["text"])
    env = dict(os.environ, VERIF_REPO=repo, VERIF_WORKERS="1", VERIF_SHRINK="0")
    res = {"killed": None, "odd": []}
    for c in order(m):
        try:
            r = subprocess.run([os.path.join(verif, "check.sh"), c, "--scale", str(scale)],
                               env=env, capture_output=True, text=True, timeout=900)
            code, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            code, out = 9, ""
        if code == 1:
            res["killed"] = c
            res["msg"] = out.strip()[-200:]
            break
        if code:
            res["odd"].append([c, code, out[-200:]])
    open(p, "w").write(orig)
    d = {k2: v for k2, v in m.items() if k2 != "text"}
    d.update(res, i=i)
    return d


def main():
    args = sys.argv[1:]
    cmd = args.pop(0)

    def opt(name, default, typ):
        if name in args:
            j = args.index(name)
            v = typ(args[j + 1])
            del args[j:j + 2]
            return v
        return default
    scale, seed = opt("--scale", .05, float), opt("--seed", 1, int)
    sample, procs = opt("--sample", 0, int), opt("--procs", 8, int)
    if cmd == "list":
        ms = mutants(args[0])
        for m in ms:
            if len(args) < 2 or args[1] in m["where"]:
                print(m["line"], m["where"], m["kind"], "|", m["old"][:60], "->", m["new"][:60])
        print(len(ms))
        return
    out = args.pop(0)
    if cmd == "again":
        old = [json.loads(x) for x in open(out)]
        out = args.pop(0)
        keys = {(d["file"], d["a"], d["b"], d["new"]) for d in old if not d["killed"]}
        ms = [m for f in CHECKS for m in mutants(f) if (f, m["a"], m["b"], m["new"]) in keys]
    else:
        ms = [m for f in (args or CHECKS) for m in mutants(f)]
    random.Random(seed).shuffle(ms)
    if sample:
        ms = ms[:sample]
    print(len(ms), "mutants", flush=True)
    n = 0
    with mp.Pool(procs) as pool, open(out, "a") as f:
        for d in pool.imap_unordered(judge, [(i, m, scale) for i, m in enumerate(ms)]):
            n += 1
            f.write(json.dumps(d) + "\n")
            f.flush()
            if not d["killed"]:
                print("%d SURVIVES %s:%d %s %s | %s -> %s %s" % (
                    n, d["file"], d["line"], d["where"], d["kind"], d["old"][:70], d["new"][:70],
                    d["odd"] or ""), flush=True)
    for name in os.listdir("/tmp"):
        if name.startswith(("mut-repo-", "mut-verif-")):
            shutil.rmtree(os.path.join("/tmp", name))


if __name__ == "__main__":
    main()
