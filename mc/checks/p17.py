"""P17: all small component constraint multigraphs; the saved pages are parsed back."""
import itertools
import os
import pathlib
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

ASSUMPTIONS = ["Nodes are distinct names without colons (graphviz port syntax); constraints join distinct nodes.",
               "Pages are read back from the SVG and image map files that graphviz' dot writes."]


def bounds(tier):
    q = tier == "quick"
    return {"targets": f"all edge sequences (ordered, both spellings of the direction) with up to {4 if q else 5} constraints on 2 or 3 nodes, {3 if q else 4} on 4 nodes; all simple graphs on 4 nodes and those with up to {5 if q else 7} edges on 5 nodes" + ("" if q else ", up to 6 edges on 6 nodes") + ", 11 larger graphs with up to 12 nodes (cycles to length 8, chains, trees, disjoint and overlapping cycles), edges listed in both directions, nodes listed in several orders",
            "pages": "all edge sequences with up to 2 constraints on 3 nodes, selected ones with up to 4, x allGraphs x savePDFs x naming x kind of path"}


def groups(tier):
    gs = []
    q = tier == "quick"
    for n, emax in ((1, 0), (2, 4 if q else 5), (3, 4 if q else 5), (4, 3 if q else 4)):
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
        for e in range(emax + 1):
            if e and len(pairs) ** e > 500:
                gs += [{"k": "seq", "n": n, "e": e, "first": f} for f in range(len(pairs))]
            else:
                gs.append({"k": "seq", "n": n, "e": e, "first": None})
    for n, emax in ((4, 6), (5, 5 if q else 7)) + (() if q else ((6, 6),)):
        for e in range(3, emax + 1):
            for part in range(8 if e > 3 else 1):
                gs.append({"k": "sets", "n": n, "e": e, "part": part, "of": 8 if e > 3 else 1})
    gs += [{"k": "long", "n": n, "which": i} for i, (n, _) in enumerate(LONG)]
    saves = save_cases(tier)
    gs += [{"k": "save", "cases": saves[i::16]} for i in range(16)]
    return gs


def weight(g):
    return {"seq": g.get("e", 0), "sets": 2 * g.get("e", 0), "save": 20, "long": 20}[g["k"]]


# longer cycles, chains, disjoint and overlapping cycles, isolated nodes; every graph with its nodes listed in three orders
LONG = ([(n, [(i, (i + 1) % n) for i in range(n)]) for n in (6, 7, 8)] + [(9, [(i, i + 1) for i in range(8)]), (8, [(i // 2, i) for i in range(1, 8)])]
        + [(7, [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)]), (5, [(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 2)]), (6, [(0, 3), (0, 4), (1, 3), (1, 5), (2, 4), (2, 5), (0, 5)]),
           (8, [(0, 1), (0, 1), (6, 7)]), (12, [(0, 11), (11, 5), (5, 0), (5, 7)]), (7, [(0, i) for i in range(1, 7)])])
NAMES = [["u", "v", "w", "p", "q"], ["y 1", "graph", "node", "Edge", "a.b"], ["10", "b-c", "ψ", "_", "u'"]]
LABELS = [["c1", "c2", "c3", "c4"], ["c1", "c1", "c1", "c1"], ["a & b", "x<1", "", "r = 2"]]


def save_cases(tier):
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    cases = []
    n = 0
    for e in (0, 1, 2):
        for seq in itertools.product(pairs, repeat=e):
            for allg in (False, True):
                cases.append((3, seq, allg, n % 7 == 0, n % 3, (n // 2) % 3, n % 4))
                n += 1
    for seq in ([(0, 1), (1, 2), (2, 0)], [(0, 1), (0, 1), (1, 0)], [(2, 1), (1, 0), (0, 2), (0, 1)], [(0, 1), (1, 2), (2, 3), (3, 0)], [(0, 1), (2, 3), (1, 3)]):
        for allg in (False, True):
            for pdf in (False, True) if len(seq) == 3 else (False,):
                cases.append((4 if any(3 in p for p in seq) else 3, seq, allg, pdf, n % 3, n % 3, n % 4))
                n += 1
    if tier != "quick":
        for seq in itertools.product(pairs, repeat=3):
            cases.append((3, seq, bool(n % 2), n % 11 == 0, n % 3, (n // 3) % 3, n % 4))
            n += 1
    return cases


def acyclic(n, arcs):
    out = {i: set() for i in range(n)}
    for a, b in arcs:
        out[a].add(b)
    left = set(range(n))
    while left:
        sinks = [v for v in left if not (out[v] & left)]
        if not sinks:
            return False
        left -= set(sinks)
    return True


def orient(seq, t):
    return [(a, b) if not x else (b, a) for (a, b), x in zip(seq, t)]


def build(n, seq, names, labels):
    from tfc.utils import ComponentConstraintGraph
    N = [names[i] for i in range(n)]
    E = [{"name": labels[k % len(labels)], "node0": names[a], "node1": names[b]} for k, (a, b) in enumerate(seq)]
    return N, E, ComponentConstraintGraph(N, E)


def check_targets(rec, n, seq, cc, case, order=None):
    rec.states += 1
    rec.traces += 1
    want = list(itertools.product([0, 1], repeat=len(seq)))
    got = [tuple(int(v) for v in t) for t in cc.targets]
    rec.transitions += len(got)
    if sorted(got) != want:
        rec.fail("targets", f"targets has {len(got)} entries ({len(set(got))} different), there are {len(want)} orientations", case)
        return
    good = [int(k) for k in cc.goodTargets]
    ref = [k for k, t in enumerate(got) if acyclic(n, orient(seq, t))]
    if sorted(good) != ref or len(set(good)) != len(good):
        extra = [got[k] for k in good if k not in ref][:3]
        miss = [got[k] for k in ref if k not in good][:3]
        rec.fail("goodTargets", f"listed although cyclic: {extra}; valid but not listed: {miss}; repeated: {len(good) - len(set(good))}", case)


def run(g, rec, tier):
    if g["k"] == "save":
        return save(g, rec)
    n = g["n"]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    if g["k"] == "seq":
        e = g["e"]
        if g["first"] is None:
            seqs = itertools.product(pairs, repeat=e)
        else:
            seqs = ((pairs[g["first"]],) + s for s in itertools.product(pairs, repeat=e - 1))
    elif g["k"] == "long":
        perms = [list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda i: (i * 5 + 3) % 13)]
        seqs = [tuple((p[a], p[b]) if (i + k) % 3 else (p[b], p[a]) for i, (a, b) in enumerate(LONG[g["which"]][1])) for k, p in enumerate(perms)]
    else:
        und = [(i, j) for i in range(n) for j in range(i + 1, n)]
        seqs = (tuple(p if (k + i) % 2 else p[::-1] for i, p in enumerate(s)) for k, s in enumerate(itertools.combinations(und, g["e"])) if k % g["of"] == g["part"])
    for k, seq in enumerate(seqs):
        names = NAMES[k % 3] + [f"z{i}" for i in range(5, 12)]
        if k % 2:
            names = names[:n][::-1]
        case = {"nodes": [names[i] for i in range(n)], "edges": [(names[a], names[b]) for a, b in seq]}
        rec.now(str(case))
        with rec.guard("graph", case):
            N, E, cc = build(n, seq, names, LABELS[k % 3])
            check_targets(rec, n, seq, cc, case)
            if cc.nNodes != n or cc.nEdges != len(seq):
                rec.fail("counts", f"nNodes {cc.nNodes}, nEdges {cc.nEdges}", case)
        if rec.full:
            return
        rec.sample(case, 1)


def svg_graph(path):
    ns = "{http://www.w3.org/2000/svg}"
    root = ET.parse(path).getroot()
    nodes, edges = [], []
    for el in root.iter(ns + "g"):
        c = el.get("class")
        if c in ("node", "edge"):
            title = el.find(ns + "title").text
            texts = [t.text or "" for t in el.iter(ns + "text")]
            (nodes if c == "node" else edges).append((title, " ".join(texts).replace("\xa0", " ")))
    return nodes, edges


def save(g, rec):
    for n, seq, allg, pdf, nm, lb, how in g["cases"]:
        seq = [tuple(p) for p in seq]
        names, labels = NAMES[nm], LABELS[lb]
        case = {"nodes": names[:n], "edges": [(names[a], names[b]) for a, b in seq], "labels": labels, "allGraphs": allg, "savePDFs": pdf, "path": how}
        rec.now(str(case))
        top = tempfile.mkdtemp(prefix="graphs-", dir=os.environ["TMPDIR"])
        cwd = os.getcwd()
        try:
            with rec.guard("save", case):
                N, E, cc = build(n, seq, names, labels)
                check_targets(rec, n, seq, cc, case)
                if how == 0:
                    out = d = os.path.join(top, "out")
                elif how == 1:
                    out = d = os.path.join(top, "new", "dir with blank")
                elif how == 2:
                    out = d = pathlib.Path(top) / "p"
                else:
                    os.chdir(top)
                    out, d = "relative", os.path.join(top, "relative")
                kw = {}
                if allg:
                    kw["allGraphs"] = True
                if pdf:
                    kw["savePDFs"] = True
                cc.SaveGraphs(out, **kw)
                check_pages(rec, str(d), n, seq, cc, names, labels, allg, pdf, case)
        finally:
            os.chdir(cwd)
            shutil.rmtree(top)
        if rec.full:
            return
    rec.sample(case)


def check_pages(rec, d, n, seq, cc, names, labels, allg, pdf, case):
    want = [tuple(t) for t in cc.targets] if allg else [tuple(cc.targets[k]) for k in cc.goodTargets]
    pages = sorted(os.listdir(os.path.join(d, "htmlFiles")))
    rec.states += len(want)
    rec.transitions += len(want) * (n + len(seq))
    if pages != sorted(f"tree{k}.html" for k in range(len(want))):
        rec.fail("pages", f"pages {pages}, {len(want)} graphs are listed", case)
        return
    main = open(os.path.join(d, "main.html")).read()
    areas = [dict(re.findall(r'(\w+)="([^"]*)"', a)) for a in re.findall(r"<area([^>]*)>", main)]
    if sorted(a["href"].replace("&#45;", "-") for a in areas) != sorted(f"htmlFiles/tree{k}.html" for k in range(len(want))):
        rec.fail("main page", f"links {[a['href'] for a in areas]}", case)
        return
    if f'src="dotFiles/main.svg"' not in main or 'usemap="#main"' not in main or 'id="main"' not in main:
        rec.fail("main page", "does not show its own picture and map", case)
    nodes, _ = svg_graph(os.path.join(d, "dotFiles", "main.svg"))
    if sorted(t for _, t in nodes) != sorted(f"Tree {k}" for k in range(len(want))):
        rec.fail("main page", f"boxes {nodes}", case)
    # the box of tree k leads to page k
    for a in areas:
        k = re.search(r"tree(\d+)\.html", a["href"]).group(1)
        if a.get("title") != f"Tree {k}":
            rec.fail("main page", f"box {a.get('title')} leads to {a['href']}", case)
    for k, t in enumerate(want):
        html = open(os.path.join(d, "htmlFiles", f"tree{k}.html")).read()
        if f'src="../dotFiles/tree{k}.svg"' not in html or f'usemap="#tree{k}"' not in html or f'id="tree{k}"' not in html:
            rec.fail("page", f"page {k} does not show its own picture and map", case)
        nodes, edges = svg_graph(os.path.join(d, "dotFiles", f"tree{k}.svg"))
        if sorted(nodes) != sorted((names[i], names[i]) for i in range(n)):
            rec.fail("page nodes", f"page {k}: {nodes}", case)
        ref = sorted((f"{names[a]}->{names[b]}", labels[j % len(labels)]) for j, (a, b) in enumerate(orient(seq, t)))
        if sorted(edges) != ref:
            rec.fail("page edges", f"page {k}: {sorted(edges)}, expected {ref}", case)
        if os.path.exists(os.path.join(d, "dotFiles", f"tree{k}.pdf")) != pdf:
            rec.fail("pdf", f"tree{k}.pdf " + ("missing" if pdf else "written without being asked for"), case)
        rec.traces += 1
