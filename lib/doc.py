"""Whole documents: cases, observation and trace validation (DocTrace.tla)."""
import re

import gen
import harness
import words
from tlc import chars

BASIC = ["kind", "ctx", "rctx", "model", "span", "kids"]
META = ["tsrc", "title", "anchor", "areft", "attrlist", "dstyle", "id", "roles", "opts", "hasopt"]
CONTENT = ["orig", "text", "style", "empty"]
SECTION = ["level", "stsrc", "stitle", "stype"]
NUMBER = ["num"]
MEDIA = ["mtype", "target", "mattr", "btype"]
ENTRY = ["attr"]
ALL = BASIC + META + CONTENT + SECTION + NUMBER + MEDIA + ENTRY

# characters the specification knows (chars.json) besides ASCII
UNI = ["é", "É", "ß", "日", "本", "ж", "Σ", "σ", "𝒜", "😀", "٣", "\u00a0", "\u2003", "\u0301", "\u200b", "—", "½", "\u3000", "\u2028", "İ"]

IDS = re.compile(r'\[\[([^\],\s]+)(?:,\s*([^\]\n]*))?|anchor:([^\[\s]+)\[([^\]\n]*)|\[#([\w-]+)')

CS = chars
def CL(l):
    return [chars(x) for x in l]

def attrlist(a):
    return {"span": a["span"], "anchor": CL(a["anchor"]),
            "attrs": [{"n": CL(x["n"]), "v": chars(x["v"]), "sh": CL(x["sh"]), "style": CL(x["style"]), "id": CL(x["id"]),
                       "roles": CL(x["roles"]), "opts": CL(x["opts"])} for x in a["attrs"]],
            "named": [CL(x) for x in a["named"]], "nop": [CL(x) for x in a["nop"]], "hasopt": a["hasopt"],
            "pos": CL(a["pos"]), "id": CL(a["id"]), "roles": CL(a["roles"]), "opts": CL(a["opts"]),
            "style": CL(a["style"])}

def val(v):
    return {"k": v["k"], "v": chars(v["v"])}

STEP = {"specialcharacters": "spec", "quotes": "quotes", "attributereferences": "attrs",
        "characterreplacements": "repl", "macros": "macros", "postreplacement": "post"}
def group(g):
    if not g.startswith("custom"):
        return {"g": g, "steps": []}
    l = g[len("custom(["):-2]
    return {"g": "custom", "steps": [STEP.get(x, x) for x in l.split(", ")] if l else []}

def docattr(a):
    return {"name": a["name"], "raw": a["raw"], "val": val(a["val"]), "span": a["span"]}

CONV = {
    "ctx": CS, "rctx": CS, "title": CL, "id": CL, "roles": CL, "opts": CL, "dstyle": CL, "text": CL,
    "stitle": CL, "num": lambda l: [{"comp": x["comp"], "txt": chars(x["txt"])} for x in l],
    "attrlist": lambda l: [attrlist(x) for x in l], "mattr": lambda l: [attrlist(x) for x in l],
    "sg": group,
    "attr": lambda l: [docattr(x) for x in l],
}

def block(b):
    out = {}
    for k, v in b.items():
        out[k] = [block(x) for x in v] if k == "kids" else CONV[k](v) if k in CONV else v
    return out

def header(h):
    out = {}
    for k, v in h.items():
        if k == "title":
            v = CL(v)
        elif k == "attrs":
            v = [docattr(x) for x in v]
        elif k == "author":
            v = [{"span": x["span"], "authors": [
                {"name": chars(a["name"]), "first": chars(a["first"]), "middle": CL(a["middle"]),
                 "last": CL(a["last"]), "email": CL(a["email"]), "initials": chars(a["initials"])}
                for a in x["authors"]]} for x in v]
        elif k == "rev":
            v = [{"span": x["span"], "num": CL(x["num"]), "date": chars(x["date"]), "remark": CL(x["remark"])}
                 for x in v]
        out[k] = v
    return out

def spec_attrs(attrs):
    return [{"n": chars(n.lower()), "k": "value" if isinstance(v, str) else "set" if v else "unset",
             "v": chars(v) if isinstance(v, str) else [], "ctx": x} for n, v, x in attrs]

def observed(d, want):
    o = {"n": len(d["src"])}
    if "blocks" in want:
        o["blocks"] = [block(b) for b in d["blocks"]]
    if "hdr" in want:
        o["hdr"] = header(d["hdr"])
    if "warn" in want:
        o["warn"] = [{"t": w["t"], "args": CL(w["args"]), "span": w["span"]} for w in d["warn"]]
    if "refs" in want:
        o["refs"] = [{"key": chars(r["key"]), "has": r["has"],
                      "e": [{"id": chars(e["id"]), "reftext": CL(e["reftext"]),
                             "resolved": CL(e["resolved"]), "type": e["type"]} for e in r["e"]], "res": CL(r["res"])}
                     for r in d["refs"]]
    if "eids" in want:
        o["eids"] = [CL(x) for x in d["eids"]]
    if "nrefs" in want:
        o["nrefs"] = d["nrefs"]
    if "vals" in want:
        o["vals"] = [{"n": chars(v["n"].lower()), "val": val(v["val"]), "has": v["has"], "set": v["set"]}
                     for v in d["vals"]]
    return o

class Docs:
    """cmp: what is compared; bf: the fields of a block that are compared."""
    def __init__(self, check, cmp=("blocks", "warn"), bf=ALL, rt=True, hf=None, watch=(), rend="html",
                 idq=None, warns=None):
        self.c, self.cmp, self.bf, self.rt, self.hf = check, list(cmp), list(bf), rt, hf
        self.watch, self.rend, self.idq, self.warns = list(watch), rend, idq, warns
        self.cases = []
        self.seen = set()

    def add(self, *docs, attrs=(), rend=None, idq=None, watch=None):
        docs = tuple(docs)
        if any(gen.DIRECTIVE.search(x) for x in docs):
            return False
        key = (docs, tuple(map(tuple, attrs)), rend)
        if key in self.seen:
            return False
        self.seen.add(key)
        self.cases.append({"docs": list(docs), "attrs": [list(a) for a in attrs], "rend": rend or self.rend,
                           "idq": idq, "watch": watch or self.watch})
        return True

    def add_included(self, src, files, attrs=()):
        """A document with includes: what the parser makes of the expanded text is checked
        against the specification's reading of that text (the expansion itself is the
        business of Preproc.tla)."""
        self.cases.append({"docs": [src], "attrs": [list(a) for a in attrs], "rend": self.rend, "idq": None,
                           "watch": self.watch, "files": files})

    def echoes(self, n):
        """Cases already added, with a part repeated."""
        r = self.c.rng
        for x in r.choices(self.cases, k=n) if self.cases else []:
            if "files" not in x:
                ds = list(x["docs"])
                k = r.randrange(len(ds))
                ds[k] = gen.echo(r, ds[k])
                self.add(*ds, attrs=x["attrs"], rend=x["rend"], idq=x["idq"], watch=x["watch"])

    def words(self, n):
        """Cases already added, with words of the sources put in."""
        r = self.c.rng
        for x in r.choices(self.cases, k=n) if self.cases else []:
            if "files" not in x:
                ds = list(x["docs"])
                k = r.randrange(len(ds))
                ds[k] = words.mutate(r, ds[k])
                self.add(*ds, attrs=x["attrs"], rend=x["rend"], idq=x["idq"], watch=x["watch"])

    def explore(self, n, want):
        """Of n texts made from those of the cases, the ones that take rare branches of the parser."""
        r = self.c.rng
        base = [x for x in self.cases if "files" not in x]
        keep, out = self.cases, []
        if not base:
            return
        for _ in range(n):
            x = r.choice(base)
            ds = list(x["docs"])
            k = r.randrange(len(ds))
            s = ds[k]
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                y = r.random()
                s = gen.splice(r, s, r.choice(r.choice(base)["docs"])) if y < .7 else words.mutate(r, s) if y < .85 else gen.echo(r, s)
            if len(s) > 400:
                continue
            ds[k] = s
            a = x["attrs"] if r.random() < .7 else r.choice(base)["attrs"]
            if self.add(*ds, attrs=a, rend=x["rend"], idq=x["idq"], watch=x["watch"]):
                out.append(self.cases.pop())
        hc = [{"id": str(k), "op": "parse", "docs": x["docs"], "attrs": x["attrs"], "renderer": x["rend"], "bf": self.bf,
               "want": ["blocks"]} for k, x in enumerate(out)]
        got = harness.choose(hc, want)
        self.cases += [out[int(h["id"])] for h in got]
        self.c.extra["branch_guided"] = {"candidates": len(out), "chosen": len(got)}

    def run(self, limit=10):
        c = self.c
        self.explore(c.size(8000, 120000), c.size(250, 6000))
        self.echoes(c.size(120, 1500))
        self.words(c.size(300, 3000))
        if words.NEW or words.NEWNUM:
            self.words(c.size(2000, 6000))
        hc = []
        for k, x in enumerate(self.cases):
            hc.append({"id": "d%d" % k, "op": "parse", "docs": x["docs"], "attrs": x["attrs"],
                       "renderer": x["rend"], "want": [w for w in self.cmp if w != "nrefs"] + (["refs"] if "nrefs" in self.cmp else []),
                       "bf": self.bf, "watch": x["watch"] or None, "idq": x["idq"] or self.idq})
            if "refs" in hc[-1]["want"]:      # also ask for what is written like an ID
                hc[-1]["idq"] = sorted(set(hc[-1]["idq"] or []) | set(y for t in x["docs"] for p in IDS.findall(t) for y in p if y))
            if "files" in x:
                hc[-1]["files"] = x["files"]
        obs = c.observe(hc, limit=limit)
        tc, meta = [], {}
        for h in hc:
            o = obs[h["id"]]
            if not c.outcome(h, o):
                continue
            ds = []
            for src, d in zip(h["docs"], o["docs"]):
                if "files" in h:
                    src = d["src"] + "\n"
                elif not src.startswith(d["src"]):
                    c.violation("a text without directives is changed before it is parsed",
                                {"case": h, "observed": d["src"]})
                    continue
                x = observed(d, self.cmp)
                if self.hf is not None and "hdr" in x:
                    x["hdr"] = {k: x["hdr"][k] for k in self.hf}
                if self.warns is not None and "warn" in x:
                    x["warn"] = [w for w in x["warn"] if w["t"] in self.warns]
                ds.append({"src": chars(src), "obs": x})
            meta[h["id"]] = dict(h, observed=o["docs"])
            tc.append({"id": h["id"], "docs": ds, "attrs": spec_attrs(h["attrs"]), "rend": h["renderer"],
                       "rt": self.rt, "cmp": self.cmp, "bf": self.bf,
                       "wf": self.warns or []})
        for t in tc[:2] + tc[len(tc) // 2:len(tc) // 2 + 2]:
            c.sample({"input": meta[t["id"]]["docs"]})
        c.extra["distinct_inputs"] = c.extra.get("distinct_inputs", 0) + len(self.cases)
        c.extra["distinct_results"] = c.extra.get("distinct_results", 0) + \
            len(set(str(t["docs"]) for t in tc))
        return c.validate("DocTrace", tc, show=lambda t: meta[t["id"]])
