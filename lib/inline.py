"""Inline substitution: cases, observation and trace validation (InlineTrace.tla)."""
import re

import gen
import harness
import words
from tlc import chars

# How a text is put into a document, and the group its position has by default.
#   name: (prefix, suffix, default group)
WRAPS = {
    "listing": ("----\n", "\n----\n", "verbatim"),
    "literal": ("....\n", "\n....\n", "verbatim"),
    "pass": ("++++\n", "\n++++\n", "pass"),
    "comment": ("////\n", "\n////\n", "none"),
    "para": ("", "\n", "normal"),
    "btitle": (".", "\npara\n", "title"),
    "stitle": ("== ", "\n", "title"),
    "htitle": ("= ", "\n\npara\n", "header"),
    "attrval": (":thename: ", "\n", "header"),
}

PLAIN_FIRST = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789(\"&>")

def usable(wrap, s):
    """Is `s' read as exactly this content in this position?"""
    if wrap in ("listing", "literal", "pass", "comment"):
        d = WRAPS[wrap][0].strip()
        if s.endswith("\r"):
            return False
        return all(l.rstrip("\r").rstrip(" ") != d for l in s.split("\n"))
    if wrap == "para":
        if not s or s[0] not in PLAIN_FIRST or s != s.strip():
            return False
        for i, l in enumerate(s.split("\n")):
            if not l or l != l.strip() or "\r" in l or "\t" in l:
                return False
            if l.startswith("//") or l == "+" or (l.startswith("[") and l.endswith("]")):
                return False
            if len(l) >= 2 and len(set(l)) == 1 and l[0] in "-=.*_+/":
                return False
        if ":" == s[0] or "::" in s.split("\n")[0]:
            return False
        return True
    if "\n" in s or "\r" in s or not s or s != s.strip() or s[0] not in PLAIN_FIRST:
        return False
    if wrap == "attrval":
        return not s.endswith("\\") and not s.endswith("+")
    return True

class Inline:
    def __init__(self, check, fields=("text",)):
        self.c = check
        self.cases = []
        self.seen = set()

    def add(self, s, wrap="listing", al=None, attrs=(), rend="html"):
        """attrs: [(name, value or True/False)] set through the API."""
        if not usable(wrap, s) or gen.DIRECTIVE.search(s):
            return False
        key = (s, wrap, al, tuple(attrs), rend)
        if key in self.seen:
            return False
        self.seen.add(key)
        if al is not None and ("\n" in al or al[:1] in " \t[" or al.endswith("]")):
            return False
        if al is not None and wrap in ("listing", "literal", "pass", "comment", "para") and \
                re.match(r"\s*literal\s*([,#.%]|$)", al):
            return False           # changes the block's kind, not its substitutions
        self.cases.append(key)
        return True

    def echoes(self, n):
        """Cases already added, with a part repeated."""
        r = self.c.rng
        for s, wrap, al, attrs, rend in r.choices(self.cases, k=n) if self.cases else []:
            self.add(gen.echo(r, s, 300), wrap, al, attrs, rend)

    def words(self, n):
        """Cases already added, with words of the sources put in."""
        r = self.c.rng
        for s, wrap, al, attrs, rend in r.choices(self.cases, k=n) if self.cases else []:
            if al is not None and r.random() < .1:
                al = words.mutate(r, al)
            else:
                s = words.mutate(r, s)
            self.add(s, wrap, al, attrs, rend)

    def explore(self, n, want):
        """Of n texts made from those of the cases, the ones that take rare branches of the parser."""
        r, base, out = self.c.rng, list(self.cases), []
        if not base:
            return
        for _ in range(n):
            s, wrap, al, attrs, rend = r.choice(base)
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                y = r.random()
                s = gen.splice(r, s, r.choice(base)[0]) if y < .7 else words.mutate(r, s) if y < .85 else gen.echo(r, s, 300)
            if r.random() < .2:
                attrs = r.choice(base)[3]
            if al is not None and r.random() < .15:
                al = r.choice(base)[2] or al
            if len(s) < 300 and self.add(s, wrap, al, attrs, rend):
                out.append(self.cases.pop())
        hc = []
        for k, (s, wrap, al, attrs, rend) in enumerate(out):
            hc.append({"id": str(k), "op": "parse", "docs": [("[%s]\n" % al if al is not None else "") + WRAPS[wrap][0] + s + WRAPS[wrap][1]],
                       "renderer": rend, "want": ["blocks"], "bf": ["text", "title"], "attrs": [[n, v, "any"] for n, v in attrs]})
        got = harness.choose(hc, want)
        self.cases += [out[int(h["id"])] for h in got]
        self.c.extra["branch_guided"] = {"candidates": len(out), "chosen": len(got)}

    def run(self):
        c = self.c
        self.explore(c.size(10000, 150000), c.size(300, 8000))
        self.echoes(c.size(150, 2000))
        self.words(c.size(400, 4000))
        if words.NEW or words.NEWNUM:
            self.words(c.size(2500, 8000))
        hc = []
        for k, (s, wrap, al, attrs, rend) in enumerate(self.cases):
            pre, post, g = WRAPS[wrap]
            doc = ("[%s]\n" % al if al is not None else "") + pre + s + post
            hc.append({"id": "i%d" % k, "op": "parse", "docs": [doc], "renderer": rend,
                       "want": ["blocks"] + (["hdr"] if wrap == "htitle" else []),
                       "bf": ["text", "title", "stitle"],
                       "attrs": [[n, v, "any"] for n, v in attrs],
                       "watch": ["thename"] if wrap == "attrval" else None})
        obs = c.observe(hc)
        tc = []
        meta = {}
        for h, (s, wrap, al, attrs, rend) in zip(hc, self.cases):
            o = obs[h["id"]]
            if not c.outcome(h, o):
                continue
            d = o["docs"][0]
            b = d["blocks"]
            out = []
            if wrap == "attrval":
                v = d["vals"][0]["val"]
                out = [v["v"]] if v["k"] == "value" else []
            elif wrap == "htitle":
                out = d["hdr"]["title"]
            elif b:
                out = b[0]["title"] if wrap == "btitle" else \
                      b[0]["stitle"] if wrap == "stitle" else b[0]["text"]
            meta[h["id"]] = dict(h, observed=out, source=s, wrap=wrap)
            tc.append({"id": h["id"], "s": chars(s), "dflt": {"g": WRAPS[wrap][2], "steps": []},
                       "al": [chars(al)] if al is not None and wrap not in ("btitle", "stitle") else [],
                       "attrs": [{"n": chars(n.lower()),
                                  "k": "value" if isinstance(v, str) else "set" if v else "unset",
                                  "v": chars(v) if isinstance(v, str) else [], "ctx": "any"}
                                 for n, v in attrs],
                       "rend": rend, "wrap": wrap, "dev": c.prop == "C23", "out": [chars(x) for x in out]})
        for t in tc[:2] + tc[len(tc) // 2:len(tc) // 2 + 2]:
            m = meta[t["id"]]
            c.sample({"input": m["docs"][0], "rendered": m["observed"]})
        c.extra["distinct_inputs"] = len(self.cases)
        changed = sum(1 for t in tc if [x for x in t["out"]] != [t["s"]])
        c.extra["inputs_changed_by_substitution"] = changed
        c.validate("InlineTrace", tc, show=lambda t: meta[t["id"]])
