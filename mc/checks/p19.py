"""P19: every table within the bounds is parsed back and compared cell by cell."""
import itertools
import re

import numpy as onp

ASSUMPTIONS = ["Two-dimensional float arrays with at least one row and column; row headers one per row, column headers one per column of the table, without & and backslashes in them.",
               "A row of the table ends at \\\\; white space around cells (LaTeX ignores it) is not compared."]
FORMS = [None, "%.4E", "%.3f", "%g", "%d", "%+.2e", "%08.3f", "%.15e", "%5.1f", "$%.2f$", "%r", "%.0f\\%%"]
OPTS = [{}, {"threshold": 3, "edgeitems": 1}, {"linewidth": 20}, {"linewidth": 10000}, {"precision": 1, "suppress": True}, {"sign": " ", "floatmode": "fixed"},
        {"formatter": {"all": lambda v: "X"}}, {"nanstr": "gone", "infstr": "big"}, {"legacy": "1.13"}, {"legacy": "1.21"}, {"threshold": 0, "linewidth": 1, "edgeitems": 0}]
VALS = [0.0, -0.0, 1.0, -2.5, 1e-300, 1.5e300, 3.14159265358979, -7e-5, float("nan"), float("inf"), -float("inf"), 123456789.125, 0.05, -1.0, 2 / 3]


def bounds(tier):
    return {"shapes": shapes(tier), "formats": FORMS, "print options": [list(o.items()) if "formatter" not in o else "formatter" for o in OPTS], "headers": "4 combinations", "types": "float64, float32, float16, strided and Fortran ordered views"}


def shapes(tier):
    r = range(1, 6) if tier == "quick" else range(1, 11)
    return [(a, b) for a in r for b in r] + [(1, 30), (30, 1), (2, 1100), (1100, 2), (1, 2500)] + ([] if tier == "quick" else [(3, 5000), (5000, 1)])


def groups(tier):
    return [{"form": f, "opt": o} for f in range(len(FORMS)) for o in range(len(OPTS))]


def cells(text):
    """(column specification, rows of cells) of a tabular environment"""
    m = re.fullmatch(r"\s*\\begin\{center\}\s*\\begin\{tabular\}\{([^}]*)\}(.*)\\end\{tabular\}\s*\\end\{center\}\s*", text, re.S)
    if not m:
        return None
    body = m.group(2).split("\\\\")
    rows = [r.replace("\\hline", "") for r in body]
    if rows and rows[-1].strip() == "":
        rows = rows[:-1]
    return m.group(1), [[c.strip() for c in re.split(r"(?<!\\)&", r)] for r in rows]


def run(g, rec, tier):
    from tfc.utils.Latex import table

    form = FORMS[g["form"]]
    old = onp.get_printoptions()
    try:
        onp.set_printoptions(**OPTS[g["opt"]])
        for n, (R, C) in enumerate(shapes(tier)):
            if R * C > 200 and tier == "quick" and (g["form"] + g["opt"]) % 3:
                continue
            for kind in ("f8", "f4", "f2", "strided", "fortran"):
                if R * C > 200 and kind != "f8":
                    continue
                vals = [VALS[(i * 7 + g["form"] + n) % len(VALS)] for i in range(R * C)]
                if form == "%d":
                    vals = [v if onp.isfinite(v) and abs(v) < 1e18 else 4.0 for v in vals]
                a = onp.array(vals).reshape(R, C)
                with onp.errstate(all="ignore"):
                    if kind in ("f4", "f2"):
                        a = a.astype(kind)
                        if form == "%d":
                            a[~onp.isfinite(a)] = 3
                    elif kind == "strided":
                        big = onp.full((2 * R, 3 * C), 99.0)
                        big[::2, ::3] = a
                        a = big[::2, ::3]
                    elif kind == "fortran":
                        a = onp.asfortranarray(a)
                for rh, ch in itertools.product((False, True), repeat=2):
                    kw = {}
                    rows = [f"row {i}" if i % 3 else f"$r_{{{i}}}$" for i in range(R)]
                    cols = [f"col {i}" for i in range(C + rh)]
                    if form is not None:
                        kw["form"] = form
                    if rh:
                        kw["rowHeader"] = rows
                    if ch:
                        kw["colHeader"] = cols
                    case = {"shape": (R, C), "type": kind, "form": form, "print options": str(OPTS[g["opt"]]), "rowHeader": rh, "colHeader": ch}
                    keep = a.copy()
                    rec.states += 1
                    rec.traces += 1
                    rec.transitions += R * C
                    with rec.guard("table", case):
                        text = table.SimpleTable(a, **kw)
                        got = cells(text)
                        if got is None:
                            rec.fail("text", f"not a table: {text[:200]!r}", case)
                            continue
                        spec, got = got
                        if spec.replace("|", "") != "c" * (C + rh):
                            rec.fail("columns", f"column specification {spec!r}", case)
                        f = form or "%.4E"
                        want = ([cols] if ch else []) + [([rows[i]] if rh else []) + [(f % a[i, j]).strip() for j in range(C)] for i in range(R)]
                        if got != want:
                            for i, (x, y) in enumerate(itertools.zip_longest(got, want)):
                                if x != y:
                                    rec.fail("cells", f"row {i} is {str(x)[:200]}, expected {str(y)[:200]}", case)
                                    break
                        if not onp.array_equal(a, keep, equal_nan=True):
                            rec.fail("argument", "the array changed", case)
                    if rec.full:
                        return
    finally:
        onp.set_printoptions(**{k: v for k, v in old.items()})
    rec.sample(case)
