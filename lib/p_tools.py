"""Checks of the tools beside the parser: coverage report, ASG schema."""
import json, os, shutil, subprocess, tempfile
import harness
from harness import BUILD, REPO, ToolError
from tlc import chars

# ---- C29: the documentation coverage report ------------------------------
def build_sdd():
    t = os.path.join(BUILD, "sdd")
    e = harness.env()
    e["CARGO_TARGET_DIR"] = t
    r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "sdd", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                       cwd=BUILD, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("sdd does not build:\n" + r.stdout[-3000:])
    return os.path.join(t, "debug", "sdd")

PAGE_LINES = ["", "", "text", "text", "= Title", "* item", " * indented", "text ", "é 日", "verifies!(", "r#\"",
              "ends r#\"", "ends r##\"", "\"#", "\"#);", "\"## x", "x \"#", "track_file!(\"docs/modules/p0.adoc\");",
              "non_normative!(", "----", "a\\b \"q\"", "last", "\tx", "  ", "\"", "\" #", "x\r", "verifies! (", "r#\" x"]
CODE = ["fn x() {", "}", "", "text", "    non_normative!(", "use crate::tests::sdd::{non_normative, track_file};",
        " track_file!(\"docs/modules/p1.adoc\");", "track_file!(\"docs/modules/p1.adoc\")", "track_file!(docs/modules/p1.adoc);",
        "// verifies!(", "    assert!(true);", "\"", "\"#", "r#\"", "track_file!( \"x\");", "\ttrack_file!(\"x\");"]

def sdd_page(r):
    n = r.choice([0, 1, 2, 3, 5, 8, 12])
    ls = [r.choice(PAGE_LINES[:12] if r.random() < .8 else PAGE_LINES) for _ in range(n)]
    return ls

def sdd_test(r, paths, pages):
    """A test citing (most of) a page, with changes."""
    out = [r.choice(CODE) for _ in range(r.randint(0, 2))]
    p = r.choice(paths + ["docs/modules/none.adoc"])
    if r.random() < .92:
        out.append('track_file!("%s");' % p)
    if r.random() < .03:
        out.append('track_file!("%s");' % r.choice(paths))
    lines = list(pages.get(p, ["x"]))
    if r.random() < .3:
        lines = lines[:r.randint(0, len(lines))]
    elif r.random() < .2:
        lines += ["more", ""][:r.randint(1, 2)]
    k = 0
    while k < len(lines) or r.random() < .1:
        out += [r.choice(CODE) for _ in range(r.choice([0, 0, 1, 2]))]
        m = r.choice(["non_normative!(", "verifies!(", "verifies!("])
        h = r.choice(["", "", "#"])
        ind = r.choice(["", "    ", "        "])
        if r.random() < .3:
            out.append(ind + m + 'r#%s"' % h)
        else:
            out += [ind + m, ind + 'r#%s"' % h]
        n = r.randint(1, max(1, len(lines)))
        for l in lines[k:k + n]:
            q = r.random()
            if q < .06:
                l = l + "!"
            elif q < .08:
                continue
            elif q < .1:
                out.append("extra")
            out.append(l)
        k += n
        if r.random() < .95:
            out.append('"#' + h + r.choice(["", ");", "\n);"]))
    out += [r.choice(CODE) for _ in range(r.randint(0, 2))]
    if r.random() < .04:
        out.append('track_file!("%s");' % p)
    return out

def file_text(r, ls):
    nl = r.choice(["\n"] * 5 + ["\r\n"])
    return nl.join(ls) + (nl if r.random() < .85 and ls else "")

NAMES = ["p0.adoc", "p1.adoc", "sub/p2.adoc", "sub/deep/p3.adoc", "a b.adoc", "x.y.adoc", "sub/p0.adoc"]
TESTS = ["a.rs", "b.rs", "mod.rs", "sub/c.rs", "sub/deep/d.rs", "sub/a.rs", "x y.rs"]
def sdd_workspace(r):
    pn = r.sample(NAMES, r.randint(1, 4))
    pages = {"docs/modules/" + n: sdd_page(r) for n in pn}
    tests = {n: sdd_test(r, list(pages), pages) for n in r.sample(TESTS, r.randint(0, 4))}
    files = {"../" + p: file_text(r, t) for p, t in pages.items()}
    files.update({"../parser/src/tests/" + n: file_text(r, t) for n, t in tests.items()})
    # what is not a test or a page
    other = {}
    if r.random() < .3:
        other["../docs/modules/" + r.choice(["x.txt", ".p9.adoc", ".hid/p.adoc", "adoc", "x.adoc.bak", "sub/.x/y.adoc"])] = "text\n"
    if r.random() < .3:
        other["../parser/src/tests/" + r.choice([".a.rs", ".hid/b.rs", "c.rs.bak", "d.txt"])] = \
            'track_file!("%s");\nverifies!(\nr#"\ntext\n"#);\n' % r.choice(list(pages))
    return {"pages": sorted("../" + p for p in pages), "tests": sorted("../parser/src/tests/" + n for n in tests),
            "files": files, "other": other}

def real_workspace(r):
    """A real page of the repository with its test."""
    base = os.path.join(REPO, "parser/src/tests")
    found = []
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".rs"):
                t = open(os.path.join(d, f), encoding="utf-8").read()
                i = t.find('\ntrack_file!("')
                if i >= 0 and len(t) < 40000:
                    page = t[i + len('\ntrack_file!("'):].split('"', 1)[0]
                    if os.path.isfile(os.path.join(REPO, page)):
                        found.append((f, t, page))
    found.sort()
    if not found:
        return None
    f, t, page = r.choice(found)
    text = open(os.path.join(REPO, page), encoding="utf-8").read()
    return {"pages": ["../" + page], "tests": ["../parser/src/tests/" + f],
            "files": {"../" + page: text, "../parser/src/tests/" + f: t}, "other": {}}

def sdd_run(binary, ws):
    base = tempfile.mkdtemp(prefix="sdd", dir=BUILD)
    try:
        cwd = os.path.join(base, "sdd")
        os.makedirs(cwd)
        os.makedirs(os.path.join(base, "parser/src/tests"))
        for p, t in list(ws["files"].items()) + list(ws["other"].items()):
            q = os.path.normpath(os.path.join(cwd, p))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w", encoding="utf-8", newline="") as f:
                f.write(t)
        return subprocess.run([binary], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                              encoding="utf-8", timeout=60)
    finally:
        shutil.rmtree(base, ignore_errors=True)

class Bad(Exception):
    pass

def pairs(l):
    if len({k for k, _ in l}) != len(l):
        raise Bad("a key twice")
    return l

def c29(c):
    r = c.rng
    binary = build_sdd()
    spaces = [sdd_workspace(r) for _ in range(c.size(700, 6000))]
    spaces += [w for w in (real_workspace(r) for _ in range(c.size(10, 60))) if w]
    cases, show = [], {}
    for k, ws in enumerate(spaces):
        p = sdd_run(binary, ws)
        cid = "w%d" % k
        show[cid] = {"workspace": ws, "stdout": p.stdout, "stderr": p.stderr[-400:], "exit": p.returncode}
        rep = []
        if p.returncode == 0:
            try:
                v = json.loads(p.stdout, object_pairs_hook=pairs)
                if [k for k, _ in v] != ["coverage"]:
                    raise Bad("top level")
                rep = [{"path": chars("../" + q), "lines": [[int(n), x] for n, x in ls]} for q, ls in v[0][1]]
            except (ValueError, Bad, TypeError) as e:
                c.violation("the report is not a JSON object of pages: %s" % e, show[cid])
                continue
        cases.append({"id": cid, "failed": p.returncode != 0, "report": rep,
                      "tests": [{"text": chars(ws["files"][t])} for t in ws["tests"]],
                      "pages": [{"path": chars(q[3:]), "text": chars(ws["files"][q])} for q in ws["pages"]]})
        for x in cases[-1]["report"]:
            x["path"] = x["path"][3:]
        if k % 150 == 0:
            c.sample({"pages": ws["pages"], "tests": ws["tests"], "report": p.stdout[:300]})
    c.extra["workspaces"] = len(cases)
    c.validate("CoverageTrace", cases, show=lambda x: show[x["id"]])
    return ("documentation pages and tests citing them (word for word, changed, dropped, repeated, cut short or too long; "
            "normative or not; raw strings with one or two hashes; hidden and foreign files; CRLF), and pages of the repository with "
            "their tests: the printed report is the one the specification computes line by line")

# ---- C30: the schema of the abstract semantic graph -----------------------
AJV = "/opt/veriftools/node/node_modules/ajv"

def asg_dir():
    """A copy of the real schema, keyword and command, with ajv at hand."""
    d = tempfile.mkdtemp(prefix="asg", dir=BUILD)
    for n in ("lib", "bin"):
        shutil.copytree(os.path.join(REPO, "asg", n), os.path.join(d, n))
    for n in ("schema.json", "schema.js", "package.json"):
        shutil.copy(os.path.join(REPO, "asg", n), d)
    os.makedirs(os.path.join(d, "node_modules"))
    a = os.path.realpath(os.path.join(REPO, "asg/node_modules/ajv"))
    os.symlink(a if os.path.isdir(a) else AJV, os.path.join(d, "node_modules/ajv"))
    return d

def asg_run(hists):
    d = asg_dir()
    try:
        procs = []
        for j in range(8):
            p = subprocess.Popen(["node", os.path.join(harness.VERIF, "harness/asg/drive.mjs"), d], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, encoding="utf-8")
            procs.append((p, "".join(json.dumps(h) + "\n" for h in hists[j::8])))
        import threading
        res = [None] * 8
        def go(j):
            p, s = procs[j]
            res[j] = p.communicate(s, timeout=600)
        ts = [threading.Thread(target=go, args=(j,)) for j in range(8)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        out = {}
        for j in range(8):
            if procs[j][0].returncode != 0:
                return None, res[j][1][-1500:]
            for l in filter(None, res[j][0].split("\n")):
                v = json.loads(l)
                out[v["id"]] = v["docs"]
        return out, ""
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tag(v):
    """A JSON value as the specification represents it."""
    if v is None:
        return {"t": "null"}
    if isinstance(v, bool):
        return {"t": "bool", "b": v}
    if isinstance(v, (int, float)):
        if int(v) != v:
            return {"t": "frac", "x": chars(repr(v))}
        return {"t": "int", "n": int(v)} if abs(v) < 2 ** 31 else {"t": "int", "n": 2 ** 31 - 1 if v > 0 else -2 ** 31}
    if isinstance(v, str):
        return {"t": "str", "s": chars(v)}
    if isinstance(v, list):
        return {"t": "arr", "v": [tag(x) for x in v]}
    return {"t": "obj", "k": [chars(k) for k in v], "v": [tag(x) for x in v.values()]}

LEAF = ["listing", "literal", "paragraph", "pass", "stem", "verse"]
PARENT = ["admonition", "example", "sidebar", "open", "quote"]
MACRO = ["audio", "video", "image", "toc"]

class AsgGen:
    def __init__(self, r):
        self.r = r
    def p(self, x=.3):
        return self.r.random() < x
    def s(self):
        return self.r.choice(["", "a", "é\n", "block", "image::x[]", "[]", "0", "name", "constructor"])
    def boundary(self):
        o = {"line": self.r.choice([1, 1, 2, 77]), "col": self.r.choice([0, 1, 9])}
        if self.p(.2):
            o["file"] = [self.s() for _ in range(self.r.choice([1, 2]))]
        return o
    def loc(self):
        return [self.boundary(), self.boundary()]
    def inlines(self, d=2):
        return [self.inline(d) for _ in range(self.r.choice([0, 1, 1, 2]))]
    def opt(self, o, **kw):
        for k, f in kw.items():
            if self.p():
                o[k] = f()
        return self.shuffle(o)
    def shuffle(self, o):
        ks = list(o)
        if self.p(.5):
            self.r.shuffle(ks)
        return {k: o[k] for k in ks}
    def inline(self, d=2, kind=None):
        kind = kind or self.r.choice(["literal", "literal", "span", "ref"] if d else ["literal"])
        if kind == "literal":
            o = {"name": self.r.choice(["text", "charref", "raw"]), "type": "string", "value": self.s()}
        elif kind == "span":
            o = {"name": "span", "type": "inline", "variant": self.r.choice(["strong", "emphasis", "code", "mark"]),
                 "form": self.r.choice(["constrained", "unconstrained"]), "inlines": self.inlines(d - 1)}
        else:
            o = {"name": "ref", "type": "inline", "variant": self.r.choice(["link", "xref"]), "target": self.s(),
                 "inlines": self.inlines(d - 1)}
        return self.opt(o, location=self.loc)
    def meta(self):
        o = {}
        if self.p(.4):
            o["attributes"] = {k: self.s() for k in self.r.sample(["a", "_x", "a-1", "$1", "$20", "A_b-c", "constructor"], self.r.randint(0, 2))}
        if self.p(.4):
            o["options"] = [self.s() for _ in range(self.r.randint(0, 2))]
        if self.p(.4):
            o["roles"] = [self.s() for _ in range(self.r.randint(0, 2))]
        return self.opt(o, location=self.loc)
    def common(self, o):
        return self.opt(o, id=self.s, title=self.inlines, reftext=self.inlines, metadata=self.meta, location=self.loc)
    def blocks(self, d, n=None):
        return [self.block(d) for _ in range(self.r.choice([0, 1, 1, 2]))]
    def body(self, d):
        return [self.section(d) if self.p(.3) else self.block(d) for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
    def section(self, d):
        o = {"name": "section", "type": "block", "title": self.inlines(), "level": self.r.choice([0, 1, 5])}
        if self.p(.6):
            o["blocks"] = self.body(d - 1) if d else []
        return self.common(o)
    def item(self, kind, d):
        o = {"name": kind, "type": "block", "marker": self.r.choice(["*", "-", "1.", "::"])}
        if kind == "listItem" or self.p(.5):
            o["principal"] = self.inlines(1)
        if kind == "dlistItem":
            o["terms"] = [self.inlines(1) for _ in range(self.r.choice([1, 1, 2]))]
        if self.p(.5):
            o["blocks"] = self.blocks(d - 1) if d else []
        return self.common(o)
    def block(self, d, kind=None):
        kind = kind or self.r.choice(["leaf", "leaf", "list", "dlist", "heading", "break", "macro", "parent"] if d else ["leaf", "break", "macro"])
        r = self.r
        if kind == "leaf":
            o = {"name": r.choice(LEAF), "type": "block"}
            if self.p(.7):
                o["form"] = r.choice(["delimited", "indented", "paragraph"])
                if o["form"] == "delimited":
                    o["delimiter"] = r.choice(["----", "....", ""])
            if self.p(.6):
                o["inlines"] = self.inlines()
        elif kind == "list":
            o = {"name": "list", "type": "block", "marker": "*", "variant": r.choice(["callout", "ordered", "unordered"]),
                 "items": [self.item("listItem", d - 1) for _ in range(r.choice([1, 1, 2]))]}
        elif kind == "dlist":
            o = {"name": "dlist", "type": "block", "marker": "::", "items": [self.item("dlistItem", d - 1) for _ in range(r.choice([1, 1, 2]))]}
        elif kind == "heading":
            o = {"name": "heading", "type": "block", "title": self.inlines(), "level": r.choice([0, 1, 2])}
        elif kind == "break":
            o = {"name": "break", "type": "block", "variant": r.choice(["page", "thematic"])}
        elif kind == "macro":
            o = {"name": r.choice(MACRO), "type": "block", "form": "macro"}
            if self.p(.6):
                o["target"] = self.s()
        else:
            o = {"name": r.choice(PARENT), "type": "block", "form": "delimited", "delimiter": "===="}
            if o["name"] == "admonition":
                o["variant"] = r.choice(["caution", "important", "note", "tip", "warning"])
            if self.p(.6):
                o["blocks"] = self.blocks(d - 1)
        return self.common(o)
    def author(self):
        return self.opt({}, fullname=self.s, initials=self.s, firstname=self.s, middlename=self.s, lastname=self.s, address=self.s)
    def doc(self, d=3):
        o = {"name": "document", "type": "block"}
        if self.p(.7):
            o["attributes"] = {k: self.r.choice([None, self.s()]) for k in
                               self.r.sample(["a", "0", "_", "a-b", "toc", "constructor"], self.r.randint(0, 3))}
            if self.p(.6):
                h = self.opt({}, title=self.inlines, location=self.loc)
                if self.p(.5):
                    h["authors"] = [self.author() for _ in range(self.r.choice([1, 2]))]
                o["header"] = h
        if self.p(.85):
            o["blocks"] = self.body(d)
        return self.opt(o, location=self.loc)

def holders(v, out):
    """Every object and array of a document."""
    if isinstance(v, dict):
        out.append(v)
        for x in v.values():
            holders(x, out)
    elif isinstance(v, list):
        out.append(v)
        for x in v:
            holders(x, out)
    return out

SCALARS = [None, True, False, 0, 1, -1, 1.5, 2.0, "", "a", "block", "section", "delimited", "unordered", [], {}, ["a"], [[]], [{}], {"a": "b"},
           {"name": "text", "type": "string", "value": "v"}, [{"line": 1, "col": 1}, {"line": 1, "col": 2}],
           [{"line": 1, "col": 1}], [{"line": 0, "col": 1}, {"line": 1, "col": 2}]]
KEYS = ["name", "type", "id", "title", "reftext", "metadata", "location", "level", "blocks", "marker", "variant", "items", "principal",
        "terms", "form", "delimiter", "target", "inlines", "value", "attributes", "header", "authors", "options", "roles", "line", "col",
        "file", "fullname", "extra", "$1", "$0", "$", "-a", "a b", "A", ""]
NAMES_ = ["document", "section", "list", "dlist", "listItem", "dlistItem", "heading", "break", "text", "span", "ref"] + LEAF + PARENT + MACRO

def mutate(r, doc):
    """One change somewhere in a document."""
    v = json.loads(json.dumps(doc))
    hs = holders(v, [])
    h = r.choice(hs)
    if isinstance(h, list):
        q = r.random()
        if q < .4 and h:
            h.pop(r.randrange(len(h)))
        elif q < .7:
            h.insert(r.randint(0, len(h)), json.loads(json.dumps(r.choice(SCALARS + (h if h else [])))))
        else:
            other = r.choice([x for x in hs if isinstance(x, list)])
            h.extend(json.loads(json.dumps(other)))
        return v
    q = r.random()
    if q < .25 and h:
        del h[r.choice(list(h))]
    elif q < .5:
        h[r.choice(KEYS)] = json.loads(json.dumps(r.choice(SCALARS)))
    elif q < .7 and h:
        h[r.choice(list(h))] = json.loads(json.dumps(r.choice(SCALARS)))
    elif q < .85 and "name" in h:
        h["name"] = r.choice(NAMES_)
    else:
        other = r.choice([x for x in hs if isinstance(x, dict)])
        k = r.choice(list(other) or ["a"])
        h[k] = json.loads(json.dumps(other.get(k, "x")))
    return v

def local_changes(r, o, wrap):
    """Every member left out, set to each of the scalar values, and every foreign key added."""
    out = []
    for k in o:
        out.append(wrap({x: y for x, y in o.items() if x != k}))
        for s in SCALARS:
            out.append(wrap({**o, k: s}))
    for k in KEYS:
        if k not in o:
            for s in r.sample(SCALARS, 4):
                out.append(wrap({**o, k: s}))
    return out

def c30(c):
    r = c.rng
    g = AsgGen(r)
    docs = []
    doc = lambda b: {"name": "document", "type": "block", "blocks": [b]}
    para = lambda i: doc({"name": "paragraph", "type": "block", "inlines": [i]})
    for k in ["leaf", "list", "dlist", "heading", "break", "macro", "parent"]:
        for _ in range(c.size(2, 8)):
            docs += local_changes(r, g.block(1, k), doc)
    for n in PARENT + LEAF + MACRO:
        b = {"name": n, "type": "block"}
        if n in PARENT:
            b.update(form="delimited", delimiter="==")
        if n in MACRO:
            b["form"] = "macro"
        docs.append(doc(b))
        for v in ["caution", "important", "note", "tip", "warning", "other", "page"]:
            docs.append(doc({**b, "variant": v}))
        for f in ["delimited", "indented", "paragraph", "macro", "x"]:
            docs += [doc({**b, "form": f}), doc({**b, "form": f, "delimiter": "--"})]
    for k in ["literal", "span", "ref"]:
        for _ in range(c.size(2, 6)):
            docs += local_changes(r, g.inline(1, k), para)
    for _ in range(c.size(2, 6)):
        docs += local_changes(r, g.section(1), doc)
        docs += local_changes(r, g.item("listItem", 1), lambda i: doc({"name": "list", "type": "block", "marker": "*", "variant": "ordered", "items": [i]}))
        docs += local_changes(r, g.item("dlistItem", 1), lambda i: doc({"name": "dlist", "type": "block", "marker": "*", "items": [i]}))
        docs += local_changes(r, g.doc(1), lambda d: d)
        docs += local_changes(r, g.meta(), lambda m: doc({"name": "break", "type": "block", "variant": "page", "metadata": m}))
        docs += local_changes(r, g.boundary(), lambda b: {**doc({"name": "break", "type": "block", "variant": "page"}), "location": [{"line": 1, "col": 1}, b]})
        docs += local_changes(r, g.author(), lambda a: {"name": "document", "type": "block", "attributes": {}, "header": {"authors": [a]}})
        docs += local_changes(r, {"title": [], "authors": [{}]}, lambda h: {"name": "document", "type": "block", "attributes": {}, "header": h})
    for kk in KEYS + ["a" * 40, "a-", "1a", "é", "aé", "a.b", "a\n", "$10", "$01", "$1a", "__x"]:
        docs.append({"name": "document", "type": "block", "attributes": {kk: "v"}})
        docs.append(doc({"name": "break", "type": "block", "variant": "page", "metadata": {"attributes": {kk: "v"}}}))
    for _ in range(c.size(1500, 15000)):
        d = g.doc()
        docs.append(d)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            d = mutate(r, d)
            docs.append(d)
    docs = [d for d in docs if isinstance(d, dict)]
    hists = []
    k = 0
    while k < len(docs):
        n = r.choice([1, 2, 3, 4])
        hists.append({"id": "h%d" % len(hists), "docs": docs[k:k + n], "fresh": r.random() < .02, "scribble": r.random() < .5})
        k += n
    for _ in range(c.size(60, 300)):
        d = g.doc(2)
        if r.random() < .5:
            d = mutate(r, d)
        if isinstance(d, dict):
            hists.append({"id": "h%d" % len(hists), "docs": [d], "cli": True})
    out, err = asg_run(hists)
    if out is None:
        c.violation("the schema or its keyword does not load", {"stderr": err})
        return "every document fails"
    show, cases = {}, []
    nv = 0
    for h in hists:
        o = out[h["id"]]
        cd = []
        for x, y in zip(h["docs"], o):
            if "crash" in y:
                c.violation("validate-asg fails", {"doc": x, "stderr": y["crash"]})
            nv += y["valid"]
            a = y.get("again") or {"valid": y["valid"], "result": y["result"]}
            cd.append({"given": tag(x), "valid": y["valid"], "result": tag(y["result"]),
                       "again": {"valid": a["valid"], "result": tag(a["result"])}})
        show[h["id"]] = {"history": h, "observed": o}
        cases.append({"id": h["id"], "docs": cd})
        if len(cases) % 400 == 0:
            c.sample({"given": h["docs"][0], "valid": o[0]["valid"], "result": o[0]["result"]})
    c.extra.update(documents=len(docs), accepted=nv)
    c.validate("AsgTrace", cases, show=lambda x: show[x["id"]])
    return ("generated graphs of every kind, every member left out, replaced by values of every type or added where it does not belong, "
            "in histories of documents through one validator whose results are written to in between; the command line tool on some: "
            "accepted exactly when the specification accepts, completed exactly as it completes")

CHECKS = {"C29": c29, "C30": c30}
