"""Checks of totality, locations, ... over whole documents."""
import json
import gen, gendoc as g
from doc import Docs, ALL, BASIC, UNI, spec_attrs
from gen import DIRECTIVE
from p_doc import CTX, soups, documents, some_attrs, exhaust, TINY
from tlc import chars

WIDE = ["é", "日", "😀", "\u0301", "\u00a0", "\u3000", "𝒜", "ß"] + gen.MORE

def widen(r, s):
    """Put multi-byte characters into a text."""
    out = []
    for ch in s:
        if ch.isalpha() and r.random() < .12:
            ch += r.choice(WIDE)
        out.append(ch)
    s = "".join(out)
    return s.replace("\n", "\r\n") if r.random() < .2 else s

def spans_of(o, out):
    if isinstance(o, dict):
        if "off" in o and "col" in o:
            out.append(o)
        else:
            for v in o.values():
                spans_of(v, out)
    elif isinstance(o, list):
        for v in o:
            spans_of(v, out)
    return out

def c02(c):
    r = c.rng
    texts = []
    for k in range(c.size(3500, 30000)):
        s = g.document(r, 2, 3) if k % 2 else g.soup(r, hi=8)
        texts.append(g.unspoil(r, widen(r, s)))
    for a in g.MEDIA + g.ATTR + g.ANCHOR + g.TITLE + g.ENTRY + g.HEAD + g.DELIM2 + g.HDR:
        texts += [widen(r, "日\n\n" + a + "\né"), widen(r, "= é\n:b: é\n" + a + "\n\nx"), "ß\n\n  " + a + "\n" + a]
    # far from the start of the text or of the line
    for n in (300, 2100, 4500) if not c.thorough else (300, 1100, 2100, 4500, 9000, 17000, 33000):
        w = "".join(r.choice("abcdeé日 ") for _ in range(n)).replace("  ", " x")
        m = "".join(r.choice(["\n", "x\n", "é\n\n", "日 b\n"]) for _ in range(n // 3))
        texts += ["image::" + w.strip() + "[a,b=c]\n", "[a=\"" + w + "\",b,,c]\nx\n", "= T\n:x" + "y" * n + ": v\n\nz", m + "\n[a]\n[[b]]\n.t\n== c\n\nimage::d[e]\n"]
    inc = []
    for k in range(c.size(300, 3000)):
        inc.append(("x é\ninclude::f%d[]\n\n== é\ny" % (k % 2), {"f0": widen(r, g.soup(r)), "f1": widen(r, g.document(r, 1, 2))}))
    hc = []
    for k, s in enumerate(texts):
        if not DIRECTIVE.search(s):
            hc.append({"id": "s%d" % k, "docs": [s]})
    for k, (s, f) in enumerate(inc):
        hc.append({"id": "n%d" % k, "docs": [s], "files": f})
    for h in hc:
        h.update(op="parse", want=["span", "hdr", "blocks", "warn"], bf=ALL, spans="full")
    obs = c.observe(hc)
    tc, meta = [], {}
    for h in hc:
        o = obs[h["id"]]
        if not c.outcome(h, o):
            continue
        d = o["docs"][0]
        src = d["src"] if "files" in h else h["docs"][0]
        by, n = {}, 0
        uniq = set()
        for s in spans_of([d.get("hdr"), d["blocks"], d["warn"], d["span"]], []):
            key = (s["off"], s["line"], s["col"], s["txt"])
            if key in uniq:
                continue
            uniq.add(key)
            n += 1
            by.setdefault(str(s["off"]), []).append({"line": s["line"], "col": s["col"], "txt": chars(s["txt"])})
        if "files" in h:       # the expanded text is only known up to its trailing white space
            src += "".join(["\n"] * 12)
            for l in by.values():
                for s in l:
                    s["txt"] = chars("".join(s["txt"]).rstrip("\n"))
        meta[h["id"]] = h
        tc.append({"id": h["id"], "src": chars(src), "spans": by, "n": n})
    c.extra["spans_checked"] = sum(t["n"] for t in tc)
    c.extra["distinct_inputs"] = len(tc)
    for t in tc[:3]:
        c.sample({"input": meta[t["id"]]["docs"], "spans": t["n"]})
    c.validate("SpanTrace", tc, show=lambda t: meta[t["id"]])
    return ("every span the real parser reports for documents of every kind, with multi-byte characters, combining marks, "
            "CRLF, random edits and included files: start, line, column and text checked against a cursor that walks the "
            "text character by character")

def c17(c):
    r = c.rng
    d = Docs(c, cmp=("blocks", "warn"), bf=["kind", "attrlist", "mattr", "dstyle", "id", "roles", "opts", "hasopt", "rctx", "areft", "anchor"])
    A = (("x", "v w", "any"), ("y", 'p,q="r"', "any"), ("z", ".k#l", "any"))
    def put(a):
        if "\n" in a:
            return
        d.add(r.choice(["[%s]\na", "[%s]\na", "[%s]\n----\n----", "[%s]\n== H", "[[k]]\n[%s]\nimage::p[]"]).replace("%s", a), attrs=A)
        if r.random() < .4:
            d.add("image::p[" + a + "]", attrs=A)
    toks = ["a", "=", "\"", ",", " ", "#", "."]
    for s in gen.product_texts(toks, c.size(4, 5)):
        put(s)
    for s in gen.product_texts(["a", "=", "'", ",", " ", "%", "\\"], c.size(3, 5)):
        put(s)
    more = ["a", "b", "foo", "id", "role", "roles", "opts", "options", "reftext", "=", "=", ",", ",", ", ", " ", "\"", "'", "\"q r\"", "'s,t'", "\\\"", "\\'", "#i", ".r",
            ".r.s", "%o", "%o%p", "#", ".", "%", "{x}", "{y}", "{z}", "{nope}", "\\{x}", "é", "日", "x-y", "x_y", "1", "\t", "<", "&", "*b*", "(C)", "\u00a0", "[", "]",
            "id=k", "role=\"m n\"", "opts=\"u,v\"", "options='w, x'", "a=b", "a = b", "=b", "b=", "\"\"", "subs=q", "\\", "\"it's\"", "'{x}'", "\"*b*\"", "'*b*'", "role= r ", "id=", "-", "+"]
    for _ in range(c.size(2500, 30000)):
        s = "".join(r.choice(more) for _ in range(r.randint(1, 7)))
        put(g.spice(r, s, 3) if r.random() < .1 else s)
    block_names = ["id", "role", "roles", "opts", "options", "reftext", "subs", "style", "a", "b", "1", "é", "x-y"]
    values = ["", "u", "u v", "u,v", "u, v,", " u ", "m  n", "w", "{x}", "{y}", "#k", "%o", ".q", "é", "u\tv", ",", " ,", "a=b", "*s*", "<t>"]
    for _ in range(c.size(900, 12000)):
        l = [r.choice(["", "", "s", "#i", ".r", "%o", "s#i.r%o", "q%a%b.c.d", "#i#j", "\"s\"", "x y"])] if r.random() < .7 else []
        for _ in range(min(r.randint(1, 5) if r.random() < .9 else gen.times(r), 30)):
            v = r.choice(values)
            q = r.choice(["\"", "\"", "'", ""])
            l.append((r.choice(block_names[:5] if r.random() < .6 else block_names) + "=" if r.random() < .75 else "") + q + v + q)
        if r.random() < .2:
            r.shuffle(l)
        put(r.choice([",", ",", ", ", " ,"]).join(l))
    for t in gen.many(r, gen.MANY["C17"], c.size(130, 260), c.size(4, 60)):
        d.add(t, attrs=A)
    for t in gen.sweep(r, gen.SLOTS["C17"], c.size(.1, 1)):
        d.add(t, attrs=A)
    d.run()
    return ("all attribute lists of up to 4 (5) characters over {a = \" , space # .} and {a = ' , space % backslash}, and "
            "random longer ones with shorthand, quoting, escapes, references, Unicode and the named attributes that merge "
            "with shorthand, on blocks and in block macros: every attribute, positional values, style, ID, roles, options, "
            "resolved context and warnings compared")

def c20(c):
    r = c.rng
    hc, seen = [], set()
    def put(t, st=None, sep=None):
        k = (t, st, sep)
        if k not in seen:
            seen.add(k)
            hc.append({"id": "w%d" % len(hc), "op": "webpath", "target": t, "start": st, "sep": sep})
    segs = ["a", "..", ".", "", "b c"]
    paths = ["/".join(x) for n in range(1, 5) for x in __import__("itertools").product(segs, repeat=n)]
    for p in paths:
        put(p)
    starts = [None, "", "/", "./", "s", "s/", "..", "/s/t", "http://h/p", "http:", "a.b:c", "./s/..", "s//", "é:/x", "ab://", "1a:/", "file:///r", "x y/", "s\\t", ".", "../s"]
    short = [p for p in paths if p.count("/") <= c.size(1, 2)]
    for p in short:
        for st in starts:
            put(p, st)
    more = segs + ["...", ".a", "a.", "é", "%20", "c:", "http:", "a\\b", "..\\", "\u00a0", "日", "x.y", "-", "a:b", " ", "~", ".. ", " .."]
    for _ in range(c.size(3000, 60000)):
        t = r.choice(["", "", "/", "./", "//", "http://", "C:\\"]) + "/".join(r.choice(more) for _ in range(r.randint(1, 6))) + r.choice(["", "", "/"])
        if r.random() < .1:
            t = g.spice(r, t, 3)
        if r.random() < .1:
            t = gen.echo(r, t, 200, False)
        st = None if r.random() < .3 else r.choice(starts + ["/".join(r.choice(more) for _ in range(r.randint(1, 4)))])
        put(t, st, r.choice([None, None, "\\"]))
    for t in gen.many(r, gen.MANY["C20"], c.size(130, 260), c.size(6, 60)):
        put(t, None if r.random() < .6 else r.choice(starts))
        put(r.choice(["a", "b/c", "../..", "/d"]), t)
    for t in gen.sweep(r, gen.SLOTS["C20"], c.size(.1, 1)):
        put(t, None if r.random() < .4 else r.choice(starts))
        put(r.choice(["a", "b/c", "..", "/d"]), t)
    obs = c.observe(hc)
    tc, meta = [], {}
    for h in hc:
        o = obs[h["id"]]
        if c.outcome(h, o):
            meta[h["id"]] = dict(h, observed=o)
            tc.append({"id": h["id"], "target": chars(h["target"]), "start": [] if h["start"] is None else [chars(h["start"])],
                       "sep": h["sep"] or "/", "result": chars(o["result"]), "again": chars(o["again"]), "root": o["root"],
                       "posix": chars(o["posix"])})
    for t in tc[100:104]:
        c.sample({k: meta[t["id"]][k] for k in ("target", "start", "observed")})
    c.extra["distinct_inputs"] = len(tc)
    c.validate("WebPathTrace", tc, show=lambda t: meta[t["id"]])
    return ("all targets of up to 4 segments over {a, .., ., empty, 'b c'}, all of up to 2 (3) segments against %d starts "
            "(relative, rooted, URIs, backslashes), and random ones with both separators: result, its root test and the "
            "result resolved again compared with the segment machine" % len(starts))

def c28(c):
    r = c.rng
    makes = ["str", "string", "cowb", "cowo", "inline", "char", "cowchar"]
    convs = ["clone", "into_string", "into_cow", "inline_copy"]
    chars_ = ["a", "é", "日", "😀", "\u0301", " ", "\n", "\r\n", "\r", "\t", "\"", "\\", "'", "\x00", "\u00a0", "\x7f", "\x1b", "\u200b"] + gen.MORE
    texts = ["", "\x00", "a\x00", "\x00" * 22, "\x00" * 21, "\x00" * 23]
    for w in ("a", "é", "日", "😀"):
        n = len(w.encode())
        for total in range(17, 28):
            t = w * (total // n)
            texts.append(t + "x" * (total - len(t.encode())))
            texts.append("x" * (total - len(t.encode())) + t)
    for _ in range(c.size(300, 4000)):
        texts.append("".join(r.choice(chars_) for _ in range(r.randint(0, 26))))
    hc = []
    def put(t, o, ops):
        hc.append({"id": "q%d" % len(hc), "op": "strings", "text": t, "other": o, "ops": ops})
    for t in texts:
        others = [t, t[:-1], t + "\x00", t + "a", t[:1], r.choice(texts)]
        for m in makes if c.thorough or len(hc) < 3000 else r.sample(makes, 3):
            for v in convs:
                put(t, r.choice(others), ["make:" + m, "eq:" + r.choice(makes), v, "eq:" + r.choice(makes), r.choice(convs), "eq:" + r.choice(makes[:5])])
    for _ in range(c.size(1500, 30000)):
        t = r.choice(texts)
        ops = ["make:" + r.choice(makes)]
        for _ in range(r.randint(2, 9)):
            x = r.random()
            ops.append("make:" + r.choice(makes) if x < .15 else "eq:" + r.choice(makes) if x < .5 else r.choice(convs))
        put(t, r.choice([t, t[:-1], t + "\x00", r.choice(texts)]), ops)
    obs = c.observe(hc)
    tc, meta = [], {}
    for h in hc:
        o = obs[h["id"]]
        if c.outcome(h, o):
            meta[h["id"]] = dict(h, observed=o)
            steps = [{"eq": s["eq"], "v": [dict(v, texts=[chars(x) for x in v["texts"]]) for v in s["v"]]} for s in o["steps"]]
            ops = [{"op": x.split(":")[0], "how": x.split(":")[1] if ":" in x else ""} for x in h["ops"]]
            tc.append({"id": h["id"], "text": chars(h["text"]), "other": chars(h["other"]), "ops": ops, "steps": steps, "inline": o["inline"]})
    c.extra["distinct_inputs"] = len(tc)
    for t in tc[:2] + tc[-2:]:
        c.sample({k: meta[t["id"]][k] for k in ("text", "ops")})
    c.validate("StringTrace", tc, show=lambda t: meta[t["id"]])
    return ("every way to build, convert, clone and compare string values over texts whose UTF-8 length lies around the "
            "inline capacity (1- to 4-byte characters, NUL) and random histories of up to ten operations: text by every "
            "access path, length, equality, hash and formatting compared with the specification")

# -------------------------------------------------------------------------- includes
FILES = ["a", "b", "c", "d/e.adoc", "é"]
PRELINES = ["x", "", "", "include::a[]", "include::b[]", "include::c[]", "include::d/e.adoc[]", "include::é[k=v]", "include::nope[]", "include::{f}[]",
            "include::{f}[x]", "\\include::a[]", ":f: a", ":f: b", ":f:", ":!f:", ":f: \\", "  c", "  \\", ":g: {f}", "include::{g}[tag=q,\"r s\"]", "include::\\{f}[]",
            "include::a[] z", "include::a", "include::[]", "include:: a[]", "include::a []", "include::a b[]", " include::a[]", "include::a[b]c]", "include::a[]]", "include::x[y[]",
            "ifdef::a[]", "endif::[]", "if x", " ", "\t", ":f: c \\", ":lock: b", "include::{lock}[]", "include::{hd}[{f}]", ":hd: c", "== H", "----", "= T", "// c", "include::{nope}[]",
            "include::{f}{f}[]", ":F: c", "include::{F}[]", "日 é", "x  ", "include::a[{f}=\"{g}\"]", ":f: d/e.adoc", ":x:y", "include::\u00a0a[]", "include::a\u00a0[]", ":k: v\\", ":1f: b", "include::{1f}[]", ":_f: a",
            "include::{_f}[]", ":f-1_g: c", "include::{f-1_g}[{_f}]", "include::{é}[]", ":F-G: b", "include::{f-g}[]", "x\r", "include::a[]\r"]

def pre_case(r, lines=PRELINES, maxfiles=4, maxlines=6):
    def text(n):
        s = "\n".join(r.choice(lines) for _ in range(r.randint(0, n)))
        return s + r.choice(["", "\n", "\n", "\n\n"])
    files = {}
    for f in r.sample(FILES, r.randint(0, maxfiles)):
        # a file includes at most one or two others, so that expansions stay small
        s = text(4)
        k = s.count("include::")
        if k > 2:
            s = s.replace("include::", "x", k - 2)
        files[f] = s
    src = text(maxlines)
    if r.random() < .3:
        src = r.choice(["= T\n", "= T\nA B\n"]) + src
    if r.random() < .15:
        src = src.replace("\n", "\r\n")
    return src, files

def pre_attrs(r):
    out = []
    if r.random() < .4:
        out.append(("lock", "a", "api"))
    if r.random() < .4:
        out.append(("hd", "b", r.choice(["header", "body"])))
    if r.random() < .3:
        out.append(("f", r.choice(["a", "b", True, False, "d/e.adoc"]), r.choice(CTX)))
    return out

def preproc(c, cases, cmp, limit=10):
    """cases: (src, files or None, primary, attrs)"""
    hc, seen = [], set()
    for src, files, prim, attrs in cases:
        key = json.dumps([src, files, prim, attrs])
        if key in seen:
            continue
        seen.add(key)
        h = {"id": "p%d" % len(hc), "op": "parse", "docs": [src], "attrs": [list(a) for a in attrs], "want": ["smap", "calls"]}
        if files is not None:
            h["files"] = files
        if prim is not None:
            h["primary"] = prim
        hc.append(h)
    obs = c.observe(hc, limit=limit)
    tc, meta = [], {}
    for h in hc:
        x = obs[h["id"]]
        if not c.outcome(h, x):
            continue
        d = x["docs"][0]
        n = d["src"].count("\n") + 1 if d["src"] else 0
        o = {"text": chars(d["src"])}
        if "calls" in cmp:
            o["calls"] = [{"from": [chars(f) for f in y["from"]], "target": chars(y["target"]),
                           "attrs": [{"n": [chars(w) for w in a["n"]], "v": chars(a["v"])} for a in y["attrs"]]} for y in d["calls"]]
        if "map" in cmp:
            o["smap"] = [[[chars(f) for f in l[0][0]], l[0][1]] if l else [[], 0] for l in d["smap"][:n]]
        meta[h["id"]] = dict(h, observed=d)
        tc.append({"id": h["id"], "src": chars(h["docs"][0]), "primary": [chars(h["primary"])] if "primary" in h else [],
                   "handler": "files" in h, "files": [{"n": chars(k), "s": chars(v)} for k, v in (h.get("files") or {}).items()],
                   "attrs": spec_attrs(h["attrs"]), "rend": "html", "obs": o, "cmp": list(cmp)})
    c.extra["distinct_inputs"] = c.extra.get("distinct_inputs", 0) + len(tc)
    c.extra["lines_expanded"] = c.extra.get("lines_expanded", 0) + sum(len(meta[t["id"]]["observed"]["smap"]) for t in tc)
    for t in tc[:2] + tc[-2:]:
        c.sample({"input": meta[t["id"]]["docs"], "files": meta[t["id"]].get("files")})
    c.validate("PreprocTrace", tc, show=lambda t: meta[t["id"]])
    return tc

def small_includes(r, count):
    """Every short main text over a few lines, with files that include one another."""
    lines = ["x", "", "include::a[]", ":f: b", "include::{f}[]", "include::n[]"]
    fsets = [{"a": "p\ninclude::b[]\nq", "b": "r\n"}, {"a": "", "b": "\n"}, {"a": "include::a[]", "b": "include::a[]\ninclude::b[]"},
             {"a": ":f: c", "b": "include::{f}[]\n\n", "c": "s\nt"}]
    out = []
    import itertools
    for n in range(1, 4):
        for t in itertools.product(lines, repeat=n):
            out.append(("\n".join(t) + r.choice(["", "\n"]), r.choice(fsets), r.choice([None, "m"]), []))
    for k in range(count):
        s, f = pre_case(r)
        out.append((s, None if r.random() < .1 else f, r.choice([None, "m", "a"]), pre_attrs(r)))
    for t in gen.sweep(r, gen.SLOTS["C10"], .08, ["\r"]):
        names = {x.split("[")[0] for x in t.split("include::")[1:]} | {"a", "b"}
        out.append((":f: a\n\n" + t + "\nz" if r.random() < .3 else t, {x: r.choice(["got\n", "g\n\nh", "include::b[]"]) if x != "b" else "B" for x in names if x}, r.choice([None, "m"]), []))
    chain = {"n%d" % k: "x%d\ninclude::n%d[]\ny%d" % (k, k + 1, k) for k in range(70)}
    out.append(("include::n0[]\nz", chain, "m", []))
    out.append((":n: 1\n\ninclude::{n}[]", {str(k): ":n: %d\ninclude::{n}[]\nend%d" % (k + 1, k) for k in range(1, 40)}, None, []))
    return out

def c10(c):
    r = c.rng
    preproc(c, small_includes(r, c.size(3500, 40000)), ["text", "calls"])
    # what was expanded is read as any other text
    d = Docs(c, cmp=("hdr", "blocks", "warn"), bf=["kind", "span", "text", "stitle", "attr", "kids"])
    for _ in range(c.size(500, 6000)):
        def clean(s):
            return "\n".join(l for l in s.split("\n") if "include::" not in l and not l.startswith("if")).rstrip()
        files = {f: clean(r.choice([g.soup(r, hi=5), g.document(r, 1, 2)])) for f in ("a", "b")}
        s = clean(r.choice([g.soup(r, hi=5), g.document(r, 1, 2)])).split("\n")
        for k in range(r.randint(1, 2)):
            s.insert(r.randint(0, len(s)), r.choice(["include::a[]", "include::b[]"]))
        d.add_included("\n".join(s).rstrip() + "\n\nend", files, attrs=some_attrs(r))
    d.run()
    return ("every main text of up to three lines over include directives (fixed, by reference, missing), an entry and "
            "text, with files that include one another and themselves; random main texts and up to four files with "
            "entries (continued, locked, header- or body-only), near-miss directives, CRLF, escaped references and "
            "attribute lists; a chain of 70 files: expanded text and every request to the handler compared; the "
            "expanded text of random documents with includes is validated as a document")

def c11(c):
    r = c.rng
    preproc(c, small_includes(r, c.size(4500, 50000)), ["text", "map"])
    return ("the expansions of C10 with another seed: file and line of every line of the expanded text compared with the "
            "line the specification read it from")

# -------------------------------------------------------------------------- totality
def nested(n):
    """n compound blocks inside one another, each opened and closed by its own delimiter."""
    ds = [["====", "****", "____"][i % 3] + "=*_"[i % 3] * (i // 3) for i in range(n)]
    return "\n".join(ds) + "\nx\n" + "\n".join(reversed(ds))

def heavy(c):
    """Long and lopsided texts."""
    k = c.size(1, 3)
    out = []
    for s in ("*", "*_", "_a", "`+", "[", "]", "{", "}", "<", ">", "&", "((", "[[", "^a", "~", "#", "\"`", "'", "\\", "\\*", "+", "++", "$$", "pass:[", "{a", "http://", "a@", "image:", "link:", "icon:",
              "[x]*", "(C)", "--", "...", "=>", "a:", "\u00a0", "é", "😀", "\u0301", "\x00", "\x02", "\x1a", "\u0096\u0097", "\u00960\u0097"):
        out += [s * (1500 * k), "a " + (s + " ") * (700 * k), (s + "\n") * (500 * k)]
    for l in ("[", "[[", "[[a", "[a,", "[\"", ".", ":a: ", "image::", "image::a[", "= ", "== ", "=", "//", "+", "[a=", "[subs="):
        out += [l + "x" * 20000, l + ",=\"" * 3000, l + "]" * 5000]
    for l in ("== a", "[[a]]", "[#a]", ":a: {b}c", ".t", "[x]", "----", "====\n----", "--", "'''", "image::a[]", "a\n\n", "// c", "=== a\n\n== b", "[[a]]\nb\n\n", ":a: \\", "[appendix]\n== a", "* * *", "a +", "\t"):
        out.append((l + "\n") * (900 * k))
    out += [":a: b\n" + "{a} " * 5000, "= " + "a" * 50000, "= T\n" + "a;" * 4000, "= T\nA\nv" + "1," * 5000, "= T\n" + ":a: x \\\n" * 3000]
    return out

ODDTITLE = list(".-_ &<>!'*+#~^`{}()[]/\\:;,=\"") + ["a", "é", "日", "😀", "İ", "ß", "\u0301", "\u00a0", "&amp;", "&#167;", "<b>", "1", "--", "A b", "{a}", "  "]

def c01(c):
    r = c.rng
    hc = []
    def put(src, **kw):
        hc.append(dict({"id": "t%d" % len(hc), "op": "parse", "docs": src if isinstance(src, list) else [src], "spans": "full",
                        "want": ["span", "smap", "hdr", "blocks", "warn", "refs", "vals"], "bf": ALL, "watch": ["a", "doctitle", "author"]}, **kw))
    for k in range(c.size(16000, 200000)):
        x = k % 8
        if x < 3:
            s = g.unspoil(r, g.unspoil(r, g.soup(r, hi=12)))
        elif x < 5:
            s = g.unspoil(r, g.unspoil(r, g.document(r, 3, 5)))
        elif x < 6:
            s = widen(r, g.unspoil(r, g.document(r, 2, 3)))
        elif x < 7:
            pools = [gen.WORDS, gen.SPACES, gen.PUNCT, gen.SPECIALS, gen.UNI, gen.MARKS, gen.AL, gen.PASS, gen.REPL, gen.MACRO, gen.REFS]
            s = r.choice(["", "", "[%hardbreaks]\n", ".", "== ", "= ", "|===\n", "* "]) + (gen.sentence(r, pools, 1, 14) if r.random() < .7 else
                                                                                         gen.macro(r) + gen.frag(r, 0, 2) + gen.macro(r))
        else:
            s = "".join(r.choice("=-*_.+/[]{}:,;\"'`#!<>&\\ \t\n\n\n\rab1é日\u0301\u00a0\x00") for _ in range(r.randint(1, 60)))
        kw = {}
        if r.random() < .5:      # settings the parser reads by name, anywhere
            l = s.split("\n")
            for _ in range(r.randint(1, 3)):
                l.insert(r.randint(0, len(l)) if r.random() < .6 else 0, g.setting(r))
            s = r.choice(["", "", "= T\n"]) + "\n".join(l)
        if r.random() < .3:
            kw["attrs"] = [list(a) for a in some_attrs(r)]
            kw["attrs"] += [a for a in g.api_settings(r) if a[0] not in [b[0] for b in kw["attrs"]]]
        if r.random() < .3:
            kw["renderer"] = "sym"
        if r.random() < .15:
            put([s, g.soup(r), s], **kw)
        else:
            put(s, **kw)
    for k in range(c.size(1500, 20000)):
        s, f = pre_case(r)
        kw = {"files": f} if r.random() < .9 else {}
        if r.random() < .5:
            kw["primary"] = r.choice(["m", "a", ""])
        put(s, **kw)
    # settings together with what they act on
    def grouped():
        x = r.random()
        if x < .45:
            names = ["idprefix", "idseparator", "sectids"]
            use = "\n".join(r.choice(["", "", "[[i]]\n", "[appendix]\n", "[#%s]\n" % gen.frag(r, 0, 2)]) + "=" * r.randint(2, 4) + " " + r.choice(["", "", "-", ".", "! "]) + gen.frag(r, 1, 4, ODDTITLE) for _ in range(r.randint(1, 4)))
        elif x < .6:
            names = ["sectnums", "sectnumlevels"]
            use = "\n".join(r.choice(["", "", "[appendix]\n"]) + "=" * r.randint(2, 6) + " A" for _ in range(r.randint(1, 8)))
        elif x < .85:
            names = ["imagesdir", "iconsdir", "icons", "icontype", "hide-uri-scheme"]
            use = "x " + r.choice(["", " ", "*", "("]) + gen.macro(r) + " " + gen.macro(r)
        else:
            names = ["hardbreaks", "hardbreaks-option", "doctitle", "a"]
            use = gen.sentence(r, [gen.REPL, gen.WORDS, gen.REFS, ["{a}", "{doctitle}", "\n", "{hardbreaks}", "{author}"]], 2, 9)
        sets = [g.setting(r, n) for n in names if r.random() < .75]
        if names[0] == "idprefix" and r.random() < .6:
            sets = [":idprefix:" + r.choice(["", "", "", " -", " é", " x"]), ":idseparator:" + r.choice(["", " é", " 日", " é日", " -", " ..", " 😀", " _", " \u0301", " \u00a0-", " x"])]
        if r.random() < .3:
            return r.choice(["= T\n", "= T\nJ Doe\n", ""]) + "\n".join(sets) + "\n\n" + use, {}
        if r.random() < .5:
            return use, {"attrs": [[n, r.choice([True, False] + g.HOSTILE), "any"] for n in names if r.random() < .75]}
        return "\n".join(sets) + "\n\n" + use, {}
    for _ in range(c.size(3500, 40000)):
        s, kw = grouped()
        put(s, **kw)
    for s in heavy(c):
        put(s, bf=["kind", "kids", "text"], spans="", want=["blocks", "warn", "hdr"])
    for n in (100, 300):
        put(nested(n), bf=["kind"], want=["blocks"])
    obs = c.observe(hc, limit=20)
    for h in hc:
        c.outcome(h, obs[h["id"]])
    deep = {"id": "deep", "op": "parse", "docs": [nested(3000)], "bf": ["kind"], "want": ["blocks"]}
    o = c.observe([deep], limit=60)["deep"]
    if o["outcome"] != "ok":
        c.deviation("nesting-overflow", "%s %s" % (o["outcome"], o.get("msg", "")), {"case": {"docs": "3000 compound blocks inside one another"}})
    c.extra["texts_parsed"] = len(hc)
    # the machine that reads documents never stops before the end of the text, and neither does the parser
    d = Docs(c, cmp=("hdr", "blocks", "warn"), bf=["kind", "span", "kids"], rt=False, hf=["span"])
    exhaust(d, r, TINY + ["[[i]]", "image::x[]", "    l", "'''"], 2, 5, c.size(600, 8000))
    soups(d, r, c.size(600, 8000))
    d.run()
    preproc(c, small_includes(r, c.size(400, 5000)), ["text"])
    return ("random lines, documents, inline texts and characters (with edits, CRLF, Unicode, attributes, both renderers, "
            "several documents per parser), includes that reach themselves, and long lopsided texts of up to 60000 "
            "characters: each parse must return; a sample is validated against the document and preprocessor machines, "
            "each of whose steps consumes input (Progress, CoversAll, Consumes, Bounded)")


CHECKS = {"C01": c01, "C10": c10, "C11": c11, "C28": c28, "C20": c20, "C02": c02, "C17": c17}
