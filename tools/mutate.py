#!/usr/bin/env python3
"""Blind-spot search: small mutants of /repo's sources, each run through the checks of the parts it touches.

    mutate.py list FILE                 number and text of the mutants of FILE (relative to /repo)
    mutate.py run FILE SEED COUNT OUT   runs COUNT of them, appends 'caught Pnn' / 'SURVIVED' lines to OUT

Not part of any check: a tool to look for what the checks do not see.
"""
import ast, os, random, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "src/tfc/utfc.py": "P08 P07 P18 P10 P06 P09 P20",
    "src/tfc/mtfc.py": "P08 P07 P18 P10 P06 P09 P20",
    "src/tfc/utils/BF_Py.py": "P06 P18",
    "src/tfc/utils/CeSolver.py": "P02 P03 P01",
    "src/tfc/utils/Latex.py": "P19",
    "src/tfc/utils/Html.py": "P17",
    "src/tfc/utils/TFCUtils.py": "P17 P14 P13 P15 P16 P18 P09 P20",
    "src/tfc/utils/MakePlot.py": "P21",
    "src/tfc/utils/PlotlyMakePlot.py": "P21",
    "src/tfc/utils/BF.cc": "P04 P05 P10 P12 P11",
    "src/tfc/utils/BF.h": "P04 P05 P10 P12 P11",
    "src/tfc/utils/BF_Py.cc": "P04 P05 P10 P12 P11",
}
SKIP_PY = {"criuCheckpoint", "__repr__", "__str__", "Warning", "Step", "SetPrintType"}


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def rep(n, text):
        s, e = span(n)
        out.append((n.lineno, b[s:e].decode(), text, s, e))

    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: "*"}
    seen_doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            seen_doc.add(id(n.body[0]))
    skip = []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in SKIP_PY:
            skip.append((n.lineno, n.end_lineno))

    def u(n):
        return ast.unparse(n)

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, f"({u(n.left)} {CMP[type(n.ops[0])]} {u(n.comparators[0])})")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            rep(n, f"(({u(n.left)}) {BIN[type(n.op)]} ({u(n.right)}))")
        elif isinstance(n, ast.BoolOp):
            op = " and " if isinstance(n.op, ast.Or) else " or "
            rep(n, "(" + op.join("(" + u(v) + ")" for v in n.values) + ")")
            rep(n, "(" + u(n.values[0]) + ")")
            rep(n, "(" + u(n.values[-1]) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, "(" + u(n.operand) + ")")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            rep(n, repr(n.value + 1))
            if n.value:
                rep(n, "0")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, "False")
            if not isinstance(n, ast.While):
                rep(n.test, "True")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and id(n) not in seen_doc and isinstance(n.value, ast.Call)):
            rep(n, "pass")
            if isinstance(n, ast.AugAssign):
                rep(n, f"{u(n.target)} = {u(n.value)}")
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Call):
            pass
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            s0, e0 = span(n.args[0]); s1, e1 = span(n.args[1])
            out.append((n.lineno, u(n)[:60], f"swap args of {u(n)[:50]}", s0, e1, b[s1:e1] + b[e0:s1] + b[s0:e0]))
        elif isinstance(n, ast.Slice):
            if n.lower is None:
                s, e = span(n); out.append((n.lineno, u(n), "1" + u(n), s, e))
    res = []
    for m in out:
        if any(a <= m[0] <= z for a, z in skip):
            continue
        ln, old, new, s, e = m[:5]
        rb = m[5] if len(m) > 5 else new.encode()
        t = b[:s] + rb + b[e:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((ln, old, new, t))
    return res


def cc_mutants(src):
    b = src
    out = []
    # only code: blank comments and strings
    def blank(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    code = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"", blank, src, flags=re.S)
    code = re.sub(r"^[ \t]*#[^\n]*", blank, code, flags=re.M)
    pats = [
        (r"(?<![<>=!-])<(?![<=])(?=[^>\n]*;)", ["<="]), (r"(?<=[\w)\]]) ?<= ?(?=[\w(])", ["<"]), (r"(?<![->=])>(?![>=])(?=[^<\n]*\))", [">="]),
        (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
        (r"(?<=[\w)\]])\s?\+(?![+=])", [" - "]), (r"(?<=[\w)\]])\s?-(?![-=>])", [" + "]),
        (r"(?<=[\w)\]])\*(?=[\w(])", ["/"]), (r"(?<=[\w)\]])/(?=[\w(])", ["*"]),
        (r"\+=", ["-="]), (r"-=", ["+="]), (r"\*=", ["/="]),
        (r"(?<![\w.])(\d+)(?![\w.])", ["+1"]), (r"(?<![\w])(\d+\.\d*)(?![\w])", ["f+1"]),
        (r"\b(?:if|else if)\s*\(", ["false"]),
        (r"^[ \t]+[\w\]\[.>()*-]+ ?[-+*/]?= ?[^;{}\n]*;", ["del"]), (r"^[ \t]+(?:delete\b|std::|memcpy|free\b)[^;{}\n]*;", ["del"]),
        (r"\bfull\b(?=\))", ["!full"]), (r"\b(sin|cos|exp|tanh)\(", ["fn"]),
    ]
    for p, news in pats:
        for m in re.finditer(p, code, flags=re.M):
            for n in news:
                s, e = m.span()
                old = src[s:e]
                if n == "+1":
                    new = str(int(m.group(1)) + 1)
                elif n == "f+1":
                    new = repr(float(m.group(1)) + 1)
                elif n == "false":
                    new = old + "false && "
                elif n == "del":
                    if re.match(r"\s*(return|using|typedef|const|int|double|auto)\b", old):
                        continue
                    new = ";"
                elif n == "fn":
                    new = {"sin": "cos(", "cos": "sin(", "exp": "expm1(", "tanh": "sin("}[m.group(1)]
                else:
                    new = n
                ln = src.count("\n", 0, s) + 1
                out.append((ln, src.splitlines()[ln - 1].strip()[:90], f"{old!r} -> {new!r} (col {s - src.rfind(chr(10), 0, s)})", (src[:s] + new + src[e:]).encode("utf-8")))
    return out


def mutants(f):
    raw = open(os.path.join(os.environ.get("MUT_REPO", "/repo"), f), "rb").read().decode()
    return py_mutants(raw) if f.endswith(".py") else cc_mutants(raw)


def main():
    f = sys.argv[2]
    ms = mutants(f)
    if sys.argv[1] == "list":
        for i, m in enumerate(ms):
            print(i, m[0], "|", m[1][:80].replace("\n", " "), "|", m[2][:80].replace("\n", " "))
        return
    seed, count, outp = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    if len(sys.argv) > 6:
        pick = [int(a) for a in sys.argv[6].split(",")]
    else:
        pick = random.Random(seed).sample(range(len(ms)), min(count, len(ms)))
    for i in pick:
        ln, old, new, data = ms[i]
        w = tempfile.mkdtemp(prefix="mut-")
        try:
            repo = os.path.join(w, "repo")
            shutil.copytree(os.environ.get("MUT_REPO", "/repo"), repo, symlinks=True, ignore=lambda d, ns: [n for n in ns if n in (".git", "build", "docs", "tests", "examples")])
            open(os.path.join(repo, f), "wb").write(data)
            verdict = "SURVIVED"
            for c in CHECKS[f].split():
                r = subprocess.run([os.path.join(VERIF, "check"), c], env=dict(os.environ, TFC_REPO=repo, MC_FAILFAST="1", MC_NOEVIDENCE="1", MC_DEADLINE="600"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    verdict = "caught " + c
                    break
                if r.returncode:
                    verdict = f"rc{r.returncode} {c} " + ("nobuild" if "does not build" in r.stdout else r.stdout[-300:])
                    break
            with open(outp, "a") as o:
                o.write(f"{verdict} | {f}:{ln} #{i} | {old[:90]!r} | {new[:90]!r}\n")
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
