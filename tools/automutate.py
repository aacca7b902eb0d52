"""Random single-node mutations of the package, as an unbiased measure of what the checks do not see.
usage: automutate.py OUT.jsonl COUNT SEED [file-substring ...]
Each mutant that passes the repository's stable tests is given to the checks concerned with its file, in turn, until one catches it; what none catches is left for a person to read."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "/repo/highway_env/"
REL = {
    "interval.py": "C27 C28 C29", "utils.py": "C30 C10 C16 C27 C23 C13 C22 C18 C12 C05 C03 C09 C08", "envs/highway_env.py": "C23 C24 C26 C04", "envs/intersection_env.py": "C26 C23 C24 C22 C01 C14",
    "envs/lane_keeping_env.py": "C33 C26 C23 C24 C12 C04", "envs/merge_env.py": "C26 C23 C24", "envs/parking_env.py": "C25 C26 C24 C23", "envs/roundabout_env.py": "C26 C23 C24 C14", "envs/summon_env.py": "C25 C26 C24 C23 C19",
    "envs/two_way_env.py": "C26 C23 C24", "road/graphics.py": "C09 C08", "road/lane.py": "C13 C14 C10 C23", "road/objects.py": "C10 C26 C15", "road/regulation.py": "C22", "road/road.py": "C14 C15 C22 C09 C26 C24",
    "vehicle/behavior.py": "C19 C20 C21 C32 C03 C29 C30", "vehicle/controller.py": "C16 C17 C14 C32 C03 C26 C30", "vehicle/dynamics.py": "C12 C11 C33", "vehicle/graphics.py": "C09 C08", "vehicle/kinematics.py": "C10 C11 C05 C09 C26 C32 C24 C22",
    "envs/common/abstract.py": "C24 C03 C02 C04 C09 C01 C25 C31", "envs/common/action.py": "C18 C17 C04 C12 C31", "envs/common/finite_mdp.py": "C07", "envs/common/graphics.py": "C09 C08 C31",
    "envs/common/observation.py": "C05 C06 C07 C08 C25 C04 C33", "uncertainty/estimation.py": "C30", "uncertainty/prediction.py": "C29 C28 C30",
}


def rel(f):
    for k, v in REL.items():
        if f.endswith(k):
            return v.split()
    return []


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def seg(src, n):
    return ast.get_source_segment(src, n)


def sites(src):
    """(start, end, new text, kind) of every mutation"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, kind):
        a, b = pos(n)
        if src[a:b] != new:
            out.append((a, b, new, kind, n.lineno))

    doc = set()
    ann = set()
    for n in list(ast.walk(tree)):
        if isinstance(n, ast.FunctionDef) and n.name in ("simulate", "plot", "main", "recover_from_stop", "maximum_speed", "draw_ground", "__str__", "__repr__", "draw"):  # not called by anything
            doc.update(ast.walk(n))
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
        for a in ("annotation", "returns"):
            if getattr(n, a, None) is not None:
                ann.update(ast.walk(getattr(n, a)))
    for n in ast.walk(tree):
        if n in doc or n in ann:
            continue
        u = ast.unparse
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, "(%s %s %s)" % (u(n.left), CMP[type(n.ops[0])], u(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.left, (ast.Constant, ast.List)) and isinstance(getattr(n.left, "value", None), str)):
                add(n, "(%s %s %s)" % (u(n.left), BIN[type(n.op)], u(n.right)), "bin")
            add(n, "(%s)" % u(n.left), "left")
        elif isinstance(n, ast.BoolOp):
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % u(x) for x in n.values) + ")", "bool")
            for k in range(len(n.values)):
                rest = [x for i, x in enumerate(n.values) if i != k]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % u(x) for x in rest) + ")", "term")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "(%s)" % u(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "const")
            elif isinstance(v, int) and not isinstance(v, bool):
                add(n, str(v + 1), "const")
            elif isinstance(v, float):
                add(n, repr(v * 1.3 + (0.1 if v == 0 else 0)), "const")
        elif isinstance(n, ast.If):
            add(n.test, "(not (%s))" % u(n.test), "if-not")
            add(n.test, "False", "if-false")
            if n.orelse or True:
                add(n.test, "True", "if-true")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % u(n.body), "ifexp")
            add(n, "(%s)" % u(n.orelse), "ifexp")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(n, "value", None), ast.Constant):
            add(n, "pass", "drop")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "drop")
        elif isinstance(n, ast.Call):
            if n.keywords:
                for k in range(len(n.keywords)):
                    c = ast.Call(n.func, n.args, [x for i, x in enumerate(n.keywords) if i != k])
                    add(n, u(ast.fix_missing_locations(c)), "kw")
            if len(n.args) == 2 and not n.keywords:
                add(n, u(ast.Call(n.func, n.args[::-1], [])), "swap")
            f = u(n.func)
            for a, b in (("min", "max"), ("np.sin", "np.cos"), ("np.cos", "np.sin"), ("max", "min"), ("np.min", "np.max"), ("np.max", "np.min"), ("np.minimum", "np.maximum"), ("abs", ""), ("np.abs", ""), ("np.square", ""), ("np.floor", "np.ceil"), ("int", "round")):
                if f == a:
                    c = ast.Call(ast.Name(b), n.args, n.keywords) if b else n.args[0]
                    add(n, "(" + u(c) + ")", "fn")
            if f == "np.clip":
                add(n, "(" + u(n.args[0]) + ")", "fn")
            if f == "copy.deepcopy":
                add(n, u(n.args[0]), "fn")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "drop")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in (("lane_index", "target_lane_index"), ("target_lane_index", "lane_index"), ("LENGTH", "WIDTH"), ("WIDTH", "LENGTH"), ("speed", "target_speed"), ("target_speed", "speed")):
                if n.attr == a:
                    add(n, "%s.%s" % (u(n.value), b), "attr")
    return out


LOCK = threading.Lock()


def tests(d):
    out = d + "/out.json"
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--ignore=tests/envs/test_time.py", "tests"], cwd=d + "/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONPATH=d + "/repo", SDL_VIDEODRIVER="dummy", PYTHONDONTWRITEBYTECODE="1"), timeout=300)
    return r.returncode == 0


def one(job):
    k, f, (a, b, new, kind, line), outp = job
    d = "/tmp/automut/%d" % k
    res = dict(k=k, file=f, line=line, kind=kind)
    try:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        p = d + "/repo/highway_env/" + f
        s = open(p).read()
        res["old"], res["new"] = s[a:b], new
        t = s[:a] + new + s[b:]
        try:
            compile(t, p, "exec")
        except SyntaxError:
            return
        open(p, "w").write(t)
        try:
            ok = tests(d)
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            res["result"] = "tests"
        else:
            res["result"] = "MISSED"
            res["ran"] = []
            for c in rel(f):
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "run.py", c], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                       env=dict(os.environ, HM_REPO=d + "/repo", HM_NO_EVIDENCE="1", HM_JOBS="2", HM_FAILFAST="1"), timeout=1500)
                except subprocess.TimeoutExpired:
                    res["ran"].append(c + ":timeout")
                    continue
                res["ran"].append("%s:%d" % (c, r.returncode))
                if r.returncode == 1:
                    res["result"] = "caught"
                    break
        with LOCK:
            open(outp, "a").write(json.dumps(res) + "\n")
            print(res["result"], f, line, kind, res["old"][:60].replace("\n", " "), "=>", new[:60].replace("\n", " "), res.get("ran"), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    outp, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sub = sys.argv[4:]
    jobs = []
    for root, _, fs in os.walk(P):
        for f in fs:
            q = os.path.relpath(os.path.join(root, f), P)
            if f.endswith(".py") and rel(q) and (not sub or any(x in q for x in sub)):
                jobs += [(q, s) for s in sites(open(P + q).read())]
    print(len(jobs), "sites")
    r = random.Random(seed)
    r.shuffle(jobs)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, [(seed * 100000 + i, f, s, outp) for i, (f, s) in enumerate(jobs[:count])]))
