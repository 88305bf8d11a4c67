#!/usr/bin/env python3
"""mutate.py MODULE|all [--seed N] [--limit N] [--jobs N] [--out FILE]

Systematic small mutants of the source modules: each one is applied in a scratch
copy, kept if the repository's stable tests still pass, and then run against the
checks that look at that module (cheapest first, until one reports a violation).
Survivors are listed for review: equivalent mutants, dead code, or weak checks."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAN = {
    "bessel_sk.py": "C01 C25 C04 C07 C02 C06 C23",
    "cython_gaunt.pyx": "C03 C07",
    "matrix_balancing.pyx": "C13",
    "helper_functions.py": "C22 C25 C05 C15",
    "data_inter_extrapolation.py": "C22",
    "materials_converter.py": "C22",
    "materials.py": "C15 C05 C20 C22",
    "scattering.py": "C05 C06 C25 C16 C23 C04 C20",
    "stratified_sphere_scattering.py": "C06 C25 C23 C16 C20",
    "translation.py": "C08 C07 C20 C02",
    "geometry.py": "C13 C25 C09 C08 C24 C23 C21 C12 C11 C10 C14 C20",
    "thermodynamics.py": "C12 C21 C24 C25 C11 C17 C20",
    "PFA.py": "C17 C16 C20 C18",
    "raw_PFA.py": "C17 C16 C20",
    "worker.py": "C25 C18 C19",
}
# never reached by the library's users
SKIP = {"geometry.py": {"blockmatrices_debug"}, "thermodynamics.py": {"l_konvergenz", "F_tempcorr"}}


def seg(src, node):
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1]+len(l.encode())+1)
    return off[node.lineno-1]+node.col_offset, off[node.end_lineno-1]+node.end_col_offset


CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"]}


def mutants(src, skip=()):
    tree = ast.parse(src)
    data = src.encode()
    out = []

    def add(node, new, what):
        a, b = seg(src, node)
        t = data[:a]+new.encode()+data[b:]
        if t != data:
            try:
                ast.parse(t.decode())
            except SyntaxError:
                return
            out.append((node.lineno, what+" | "+data[a:b].decode()[:60].replace("\n", " ")+" -> "+new[:60].replace("\n", " "), t.decode()))

    def s(node):
        a, b = seg(src, node)
        return data[a:b].decode()

    def visit(node, fn):
        if isinstance(node, ast.FunctionDef) and node.name in skip:
            return
        if isinstance(node, ast.If) and "__main__" in s(node.test):
            return
        body_like = []
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list):
                body_like += v
        for st in body_like:
            if isinstance(st, (ast.Assign, ast.AugAssign)) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and not s(st).startswith(("print", "log"))):
                add(st, "pass", "delete")
            if isinstance(st, ast.Raise):
                add(st, "pass", "delete")
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for o in CMP.get(type(node.ops[0]), []):
                add(node, "%s %s %s" % (s(node.left), o, s(node.comparators[0])), "cmp")
        if isinstance(node, ast.BinOp):
            for o in BIN.get(type(node.op), []):
                if isinstance(node.op, ast.Mod) and isinstance(node.left, (ast.Constant, ast.JoinedStr)):
                    continue
                add(node, "%s%s%s" % (s(node.left), o, s(node.right)), "bin")
            if isinstance(node.op, (ast.Mult, ast.Add, ast.Sub, ast.Div)):
                add(node, s(node.left), "drop-right")
            if isinstance(node.op, (ast.Mult, ast.Add)):
                add(node, s(node.right), "drop-left")
        if isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)) and node.value is not None and node.value is not Ellipsis:
            v = node.value
            if isinstance(v, bool):
                add(node, str(not v), "const")
            elif isinstance(v, int):
                add(node, str(v+1), "const")
                if v > 0:
                    add(node, str(v-1), "const")
            elif isinstance(v, float):
                add(node, repr(v*1.5 if v else 1.0), "const")
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            add(node.test, "(not (%s))" % s(node.test), "cond")
            if not isinstance(node, ast.While):
                add(node.test, "True", "cond")
                add(node.test, "False", "cond")
        if isinstance(node, ast.BoolOp):
            o = " or " if isinstance(node.op, ast.And) else " and "
            add(node, o.join("(%s)" % s(v) for v in node.values), "bool")
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            add(node, s(node.operand), "unary")
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "sum", "real", "conj", "transpose"):
            add(node, s(node.func.value), "drop-call")
        if isinstance(node, ast.Call) and len(node.args) >= 2 and not node.keywords:
            for i in range(len(node.args)-1):
                a = [s(x) for x in node.args]
                a[i], a[i+1] = a[i+1], a[i]
                add(node, "%s(%s)" % (s(node.func), ", ".join(a)), "swap")
        if isinstance(node, ast.Call) and node.keywords:
            for k in node.keywords:
                if k.arg:
                    rest = [s(x) for x in node.args]+[s(q) for q in node.keywords if q is not k]
                    add(node, "%s(%s)" % (s(node.func), ", ".join(rest)), "drop-kw")
        if isinstance(node, ast.Attribute) and node.attr == "T":
            add(node, s(node.value), "drop-T")
        if isinstance(node, (ast.Break, ast.Continue)):
            add(node, "pass", "delete")
        for c in ast.iter_child_nodes(node):
            visit(c, fn)
    visit(tree, None)
    return out


def text_mutants(src):
    """for the Cython modules"""
    out = []
    rules = [(r"(?<![<>=!+\-*/])\+(?!=)", "-"), (r"(?<=[\w\)\]]) ?- ?(?=[\w\(])", "+"), (r"(?<!\*)\*(?!\*|=)", "/"), (r"/(?!=|/)", "*"), (r"<=", "<"), (r"(?<!<)<(?!=|<)", "<="),
             (r">=", ">"), (r"(?<!>)>(?!=|>)", ">="), (r"==", "!="), (r"\b(\d+)\b(?!\.)", lambda m: str(int(m.group(1))+1)),
             (r"\b(\d+)\b(?!\.)", lambda m: str(max(0, int(m.group(1))-1))), (r"\+=", "-="), (r"\*=", "/="), (r"/=", "*="), (r"\babs\(", "("), (r"\band\b", "or"), (r"\bor\b", "and")]
    pos = 0
    for no, line in enumerate(src.split("\n"), 1):
        code = line.split("#")[0]
        if code.strip() and not code.strip().startswith(("import", "cimport", "from", "@", '"', "'")):
            for pat, rep in rules:
                for m in re.finditer(pat, code):
                    new = rep(m) if callable(rep) else rep
                    t = src[:pos+m.start()]+new+src[pos+m.end():]
                    if t != src:
                        out.append((no, "text | %s @%d -> %s" % (code.strip()[:60], m.start(), new), t))
        pos += len(line)+1
    return out


COV = os.environ.get("MUT_COVER", "/tmp/cov")     # <check>.lines, written through VERIF_COVER


def covering(mod, line, plan):
    if mod.endswith(".pyx") or not os.path.isdir(COV):
        return plan
    key = "%s %d" % (mod, line)
    hit = [q for q in plan if os.path.exists(COV+"/%s.lines" % q) and key in open(COV+"/%s.lines" % q).read().split("\n")]
    return hit


STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(args):
    n, mod, line, what, text, verif = args
    plan = covering(mod, line, PLAN[mod].split())
    if not plan:
        return (n, mod, line, what, "not-covered", "")
    d = tempfile.mkdtemp(prefix="m", dir="/tmp/mut")
    try:
        subprocess.run(["cp", "-a", "/repo/CasimirRio", d+"/CasimirRio"], check=True)
        src = d+"/CasimirRio/"
        with open(src+mod, "w") as f:
            f.write(text)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                 NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL", OPENBLAS_CORETYPE="Haswell", VERIF_REPO=d, VERIF_PROCS="1", VERIF_MAX_FAIL="1", VERIF_SHUFFLE="1", VERIF_SAMPLE=os.environ.get("MUT_SAMPLE", "0.12"))
        if mod.endswith(".pyx"):
            b = mod[:-4]
            p = subprocess.run('rm -f %s.cpython*.so %s.c; CFLAGS="-I$(/opt/venv/bin/python -c "import numpy; print(numpy.get_include())")" /opt/venv/bin/python %s_setup.py build_ext --inplace --force' % (b, b, b),
                               shell=True, cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                return (n, mod, line, what, "build-fails", "")
        xml = d+"/r.xml"
        try:
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "-p", "no:cacheprovider", "--timeout=60", "--junitxml="+xml, "tests"],
                           cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        except subprocess.TimeoutExpired:
            return (n, mod, line, what, "tests-hang", "")
        import xml.etree.ElementTree as ET
        ok = set()
        try:
            for t in ET.parse(xml).getroot().iter("testcase"):
                if t.find("failure") is None and t.find("error") is None and t.find("skipped") is None:
                    ok.add(t.get("classname")+"::"+t.get("name"))
        except Exception:
            pass
        if not STABLE <= ok:
            return (n, mod, line, what, "killed-by-tests", "")
        for q in plan:
            try:
                p = subprocess.run(["./run.sh", q], cwd=verif, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)
            except subprocess.TimeoutExpired:
                return (n, mod, line, what, "check-hang", q)
            o = p.stdout.decode()
            if p.returncode == 1 and "VIOLATION property="+q in o:
                return (n, mod, line, what, "caught", q)
            if p.returncode:
                return (n, mod, line, what, "check-error", q+": "+o[-300:])
        return (n, mod, line, what, "SURVIVED", "")
    except Exception as ex:
        return (n, mod, line, what, "tool-error", repr(ex))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]

    def opt(k, dflt):
        return a[a.index(k)+1] if k in a else dflt
    mods = list(PLAN) if a[0] == "all" else a[0].split(",")
    allm = []
    for m in mods:
        src = open("/repo/CasimirRio/"+m).read()
        ms = text_mutants(src) if m.endswith(".pyx") else mutants(src, SKIP.get(m, ()))
        for i, (line, what, t) in enumerate(ms):
            allm.append(("%s#%d" % (m, i), m, line, what, t))
    print(len(allm), "mutants", {m: sum(1 for x in allm if x[1] == m) for m in mods}, flush=True)
    if "--count" in a:
        return
    random.Random(int(opt("--seed", "1"))).shuffle(allm)
    allm = allm[:int(opt("--limit", "100000"))]
    done = set()
    if os.path.exists(opt("--out", "/tmp/mut/results.jsonl")):
        done = {json.loads(l)[0] for l in open(opt("--out", "/tmp/mut/results.jsonl"))}
    allm = [x for x in allm if x[0] not in done]
    only = opt("--ids", None)
    if only:
        allm = [x for x in allm if x[0] in only.split(",")]
    os.makedirs("/tmp/mut", exist_ok=True)
    verif = tempfile.mkdtemp(prefix="verif", dir="/tmp/mut")
    subprocess.run("git -C %s archive HEAD | tar x -C %s; cp -a %s/.build %s/ 2>/dev/null" % (VERIF, verif, VERIF, verif), shell=True)
    out = open(opt("--out", "/tmp/mut/results.jsonl"), "a")
    try:
        with ThreadPoolExecutor(int(opt("--jobs", "8"))) as ex:
            for f in as_completed([ex.submit(one, x+(verif,)) for x in allm]):
                r = f.result()
                out.write(json.dumps(r)+"\n")
                out.flush()
    finally:
        shutil.rmtree(verif, ignore_errors=True)


main()
