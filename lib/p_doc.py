"""Checks decided with the document specification (Doc.tla, DocTrace.tla)."""
import itertools
import gen
import gendoc as g
from doc import Docs, BASIC, META, CONTENT, SECTION, NUMBER, MEDIA, ENTRY, ALL, UNI

def exhaust(d, r, kinds, full, longer, count, end=("", "\n"), attrs=lambda: ()):
    """Every document of up to `full` of these lines and `count` random ones of up to `longer`."""
    for n in range(1, full + 1):
        for t in itertools.product(kinds, repeat=n):
            d.add("\n".join(t) + (end[0] if len(end) == 1 else r.choice(end)), attrs=attrs())
    for _ in range(count):
        n = r.randint(full + 1, longer)
        d.add("\n".join(r.choice(kinds) for _ in range(n)) + r.choice(end), attrs=attrs())

def soups(d, r, n, weights=g.EVEN, hi=10, attrs=lambda: ()):
    for k in range(n):
        s = g.soup(r, weights, 1, hi)
        d.add(g.unspoil(r, s) if k % 3 == 0 else s, attrs=attrs())

def documents(d, r, n, depth=2, sections=4, header=0.5, attrs=lambda: ()):
    for k in range(n):
        s = g.document(r, depth, sections, header)
        d.add(g.unspoil(r, s) if k % 4 == 0 else s, attrs=attrs())

def weights(**kw):
    return kw

CTX = ["any", "api", "header", "body"]
def some_attrs(r, names=("sectnums", "a", "b", "sectids", "idprefix")):
    out = []
    for n in names:
        if r.random() < .3:
            out.append((n, r.choice([True, False, "v", "w*x*"]), r.choice(CTX)))
    return tuple(out)

# --------------------------------------------------------------------------
TINY = ["a", "", "----", "====", "== S", "[x]", ".T", ":a: b", "// c", "= T"]

def c03(c):
    r = c.rng
    d = Docs(c, cmp=("hdr", "blocks"), bf=BASIC + ["orig", "tsrc", "anchor", "stsrc", "mtype"], rt=True,
             hf=["span", "tsrc", "comments"])
    exhaust(d, r, TINY, c.size(3, 4), c.size(5, 6), c.size(1500, 12000))
    soups(d, r, c.size(700, 8000))
    documents(d, r, c.size(500, 6000))
    for t in gen.many(r, gen.MANY["C03"], c.size(130, 260), c.size(4, 60)):
        d.add(t)
    d.run()
    return ("all documents of up to 3 (4) lines over %d line kinds, random longer ones, line soups with CRLF, trailing "
            "white space and random edits, and nested well-formed documents: header, every block's kind, span, content "
            "span and children compared with the specification, whose invariants Tiles, BlankOnly, CoversAll and "
            "BlocksNested hold on each" % len(TINY))

def c04(c):
    r = c.rng
    d = Docs(c, cmp=("blocks", "warn"), bf=BASIC + ["orig", "text", "style"], warns=["UnterminatedDelimitedBlock"])
    small = ["----", "====", "--", "a", "", "-----", "[subs=none]"]
    exhaust(d, r, small, c.size(4, 5), 6, c.size(500, 4000))
    more = g.DELIM + g.DELIM2 + ["a", " x", "", "=== h", ".t", "[r]", ":a: b", "*b* <c>", "// n", "'''", "+", "\\----", "----\r"]
    for _ in range(c.size(900, 12000)):
        # one outer pair around lines that look like delimiters
        o = r.choice(g.DELIM)
        ls = [r.choice(more) for _ in range(r.randint(0, 6))]
        ls = [r.choice(["", "a", ".t", "[x]"])] * r.randint(0, 1) + [o] + ls + [o + r.choice(["", "", " ", "  ", "\t", o[0], "\r"])] * r.randint(0, 1) + ["z"] * r.randint(0, 2)
        d.add("\n".join(ls) + r.choice(["", "\n", "\n\n"]))
    for _ in range(c.size(500, 6000)):
        d.add("\n".join(r.choice(more) for _ in range(r.randint(2, 9))))
    for t in gen.many(r, gen.MANY["C04"], c.size(130, 260), c.size(4, 60)):
        d.add(t)
    for t in gen.sweep(r, gen.SLOTS["C04"], c.size(.1, 1), ["\r"]):
        d.add(t)
    documents(d, r, c.size(300, 4000), depth=4, sections=1, header=.1)
    d.run()
    return ("all documents of up to 4 (5) lines over 7 line kinds with three delimiters, pairs of every delimiter around "
            "near-miss delimiters (longer, shorter, trailing blanks or tabs, CR), and documents nested 4 deep: kind, "
            "model, span, content, children and unterminated-block warnings compared")

HEADW = ["Level0SectionHeadingNotSupported", "SectionHeadingLevelExceedsMaximum", "SectionHeadingLevelSkipped"]
def c05(c):
    r = c.rng
    d = Docs(c, cmp=("blocks", "warn"), bf=BASIC + ["level", "stsrc", "stitle", "stype"], warns=HEADW)
    small = ["== A", "=== B", "==== C", "a", "", "[discrete]", "===="]
    exhaust(d, r, small, 4 if c.thorough else 3, 7, c.size(900, 9000))
    more = g.HEAD + g.BADHEAD + ["a", "", "[discrete]", "[float]", "[appendix]", "[#i]", ".T", "[literal]", "====", "----", ":a: b",
                                 "// c", "[{a}]", "[source]", "***", " == x", "== \u00a0", "##", "=====\tx", "[x]\n[discrete]"]
    # every marker of up to six characters, before every kind of space
    for n in range(1, 10):
        for t in itertools.product("=#", repeat=n) if n < 7 else [("=",) * n, ("#",) * n, ("=",) * (n - 1) + ("#",), ("=",) + ("#",) * (n - 1)]:
            m = "".join(t)
            for tail in ([" A", "A", "\tA", "  A ", " ", "", "\u00a0A", "\u2003A", " " + m[0] + " A"] if len(set(m)) < 2 or n < 3 else [" A", "A"]):
                d.add(m + tail + "\nb")
                if r.random() < c.size(.25, 1):
                    d.add(r.choice(["= T\n\n", "== A\n\n", "x\n", "[discrete]\n", ".t\n", "====\n", "x\n\n"]) + m + tail + r.choice(["", "\n", "\n\ny"]))
    for t in gen.many(r, gen.MANY["C05"], c.size(130, 260), c.size(4, 60)):
        d.add(t)
    for t in gen.sweep(r, gen.SLOTS["C05"], c.size(.1, 1), ["\r"]):
        d.add(t)
    for _ in range(c.size(1400, 16000)):
        s = "\n".join(r.choice(more) for _ in range(r.randint(2, 10)))
        if r.random() < .4:
            s = "= Doc\n" + r.choice(["", ":a: discrete\n", ":a: literal\n"]) + "\n" + s
        d.add(g.unspoil(r, s) if r.random() < .2 else s)
    for _ in range(c.size(500, 6000)):
        d.add(g.document(r, 1, 9, .5))
    d.run()
    return ("all documents of up to 3 (4) lines over headings of three levels, text, blank, [discrete] and a compound "
            "delimiter; random sequences of good and bad headings with metadata, with and without a title; long random "
            "heading-level walks: the tree of sections, preambles, levels, titles and heading warnings compared")

def c06(c):
    r = c.rng
    d = Docs(c, cmp=("blocks",), bf=["kind", "level", "stype", "num", "kids"])
    on = (("sectnums", True, "any"),)
    heads = ["== A", "=== B", "==== C", "===== D", "====== E", "[appendix]\n== P"]
    for n in range(1, c.size(5, 6)):
        for t in itertools.product(heads[:4] + heads[5:] if n >= 4 else heads, repeat=n):
            d.add("\n".join(t), attrs=on + ((("sectnumlevels", r.choice("0123456"), "any"),) if r.random() < .3 else ()))
    odd = ["== A", "=== B", "==== C", "[appendix]\n== P", "[discrete]\n== D", "[discrete]\n=== E", "[appendix]\n=== Q", "[float]\n== F", "====\n=== K\n===="]
    for n in range(2, c.size(4, 5)):
        for t in itertools.product(odd, repeat=n):
            d.add("\n\n".join(t), attrs=on)
    for _ in range(c.size(500, 6000)):
        d.add("\n\n".join(r.choice(odd) for _ in range(r.randint(4, 9))), attrs=on)
    more = heads * 3 + [":sectnums:", ":!sectnums:", ":sectnums: all", ":sectnumlevels: 2", ":sectnumlevels: 5",
                        "[discrete]\n=== X", "a", "", "====", "[appendix]\n=== Q", "[.r]\n== R", ".t", "[[i]]\n=== I", "----", "[appendix,x]\n## S"]
    for _ in range(c.size(2000, 24000)):
        a = []
        if r.random() < .7:
            a.append(("sectnums", r.choice([True, True, "all", "", False]), r.choice(CTX)))
        if r.random() < .4:
            a.append(("sectnumlevels", r.choice(["0", "1", "2", "3", "4", "5", "+4", "x", "", " 2", "-1", "٣", True, False]), r.choice(CTX)))
        s = "\n".join(r.choice(more) for _ in range(r.randint(2, 14)))
        if r.random() < .4:
            s = "= T\n" + r.choice(["", ":sectnums:\n", ":!sectnums:\n", ":sectnumlevels: %d\n" % r.randint(0, 6)]) + "\n" + s
        d.add(s, attrs=tuple(a))
    for _ in range(c.size(12, 200)):
        d.add("\n".join(r.choice(["== A", "[appendix]\n== P", "=== B"]) for _ in range(r.randint(30, 80))), attrs=on)
    for t in gen.many(r, gen.MANY["C06"], c.size(130, 260), c.size(4, 60)):
        d.add(t, attrs=on)
    d.run()
    return ("all heading sequences of up to 4 (5) headings over five levels and appendices, numbered with every depth "
            "setting; random sequences with numbering switched on and off, depth changed, discrete headings and compound "
            "blocks in between; long sequences with more than 26 appendices: each section's number compared")

def c07(c):
    r = c.rng
    d = Docs(c, cmp=("blocks", "refs", "nrefs", "eids", "warn"), bf=["kind", "id", "stitle", "title", "anchor", "areft", "kids"], warns=["DuplicateId"],
             idq=None)
    small = ["== A", "=== A", "[#_a]", "[[i]]", "[#i]", "a", ""]
    exhaust(d, r, small, c.size(3, 4), 8, c.size(700, 8000))
    titles = ["A", "a", "A b", "A.b", "A-b", "A  b", "<b>", "a & b", "é 日", "x1", "A!", "a_b", "_a_", "*B*", "{a}", "A-2", "a -- b", ".a", "-a-", "`m`",
              "&copy; x", "&#167;", "1 2", "İ", "Σσ", "σΣ", "ΑΣ b", "ΑΣ'b", "1Σ", "aΣ.", "½", "a\u00a0b", "(C)", "x...", "٣", "http://x.y[t]", "a+b", "A-3", "a 2", "a'b", "&x2013;q", "&lt;i&gt;"]
    more = ["[#_a]", "[[i]]", "[[i,A]]", "[#i.r]", "[id=i]", "[id=_a-2]", "[#_a-2]", "[reftext=A]", "[reftext=\"x\"]", "[[j,T]]", ".T", "a", "", "====", "----",
            ":idprefix: p-", ":idprefix:", ":idseparator: -", ":idseparator:", ":idseparator: ..", ":!sectids:", ":sectids:", ":!idprefix:",
            "[discrete]", "image::x[]", "'''", "[[_A]]", ":a: v w", "[#_a-3]", "[appendix]", "[id=j,reftext=T]", "[[k,]]", "[[]]", "[#]"]
    for _ in range(c.size(1700, 22000)):
        n = r.randint(2, 11)
        ls = []
        for _ in range(n):
            t = r.choice(titles[:8] if r.random() < .6 else titles)
            if r.random() < .1:
                t = g.spice(r, t, 4)
            ls.append("=" * r.randint(2, 4) + " " + t if r.random() < .5 else r.choice(more))
        a = []
        if r.random() < .3:
            a = [(r.choice(["idprefix", "idseparator", "sectids"]), r.choice(["", "-", "x", "--", True, False, "_"]), "any")]
        elif r.random() < .4:
            a = [(x, r.choice([True, False] + g.HOSTILE), "any") for x in ("idprefix", "idseparator") if r.random() < .6]
        while r.random() < .2:
            ls.insert(r.randint(0, len(ls)), g.setting(r, r.choice(["idprefix", "idseparator", "sectids"])))
        d.add("\n".join(ls), attrs=tuple(a), idq=["i", "_a", "_a-2", "_a-3", "j", "nope", "k", "A", "T"])
    # every prefix with every separator, over titles that begin and end with what becomes a separator
    ends = titles + ["-a", ".a", "! a", "a -", "a.", "-", ". .", "- é -", "é a é", "日 日", "x- x", "<b> a", "a <b>", "--a--b--", "_a", "a_", "😀 a"]
    for pre in (None, "", " é", " p-", " -"):
        for sep in (None, "", " -", " é", " 日x", " ..", " 😀", " _", " x", " \u0301", " ß", " 1", " A"):
            for _ in range(c.size(1, 6)):
                ts = r.sample(ends, 6) + r.sample(ends[len(titles):], 3)
                d.add("\n".join((["= T"] if pre is not None and r.random() < .5 else []) + ([":idprefix:" + pre] if pre is not None else []) +
                                ([":idseparator:" + sep] if sep is not None else []) + [""] + ["== " + t for t in ts]))
    for _ in range(c.size(10, 120)):
        k, t = r.randint(12, 60), r.sample(titles[:12], 2)
        d.add("\n".join("=" * r.randint(2, 3) + " " + (t[0] if r.random() < .8 else t[1]) for _ in range(k)),
              attrs=() if r.random() < .6 else (("idseparator", r.choice(["", "-", "--"]), "any"),), idq=["_a", "_a_%d" % k, "_a-%d" % k])
    for t in gen.many(r, gen.MANY["C07"], c.size(130, 260), c.size(4, 60)):
        d.add(t)
    for t in gen.sweep(r, gen.SLOTS["C07"], c.size(.1, 1)):
        d.add(t)
    # references to characters of every length
    for x in ["&#%s;" % "1234567890"[:k] for k in range(9)] + ["&#x%s;" % "1f60abc9"[:k] for k in range(9)] + ["&%s%s;" % ("abcdefgh"[:k], "1234"[:m]) for k in (0, 1, 2, 3, 8) for m in range(4)]:
        for t in ("== a %s b", "== a%sb", "== %s", "== %sa", "== a%s", "== x %s%s y"):
            d.add(t.replace("%s", x) + "\n\nz")
    documents(d, r, c.size(200, 2500))
    d.run()
    return ("all documents of up to 3 (4) lines over equal headings, explicit IDs that collide with generated ones, anchors "
            "and text; random mixes with every ID-related attribute and titles with markup, entities and Unicode: each "
            "block's ID, the whole registry (IDs, reference texts, resolution, size) and the duplicate warnings compared")

def c08(c):
    r = c.rng
    d = Docs(c, cmp=("vals", "warn", "blocks", "hdr"), bf=["kind", "attr", "text", "kids"], warns=["AttributeValueIsLocked"], hf=["attrs"],
             watch=["a", "b", "sectids", "toc", "hardbreaks-option", "hardbreaks", "empty", "sectnumlevels"])
    vals = [True, False, "v"]
    entries = [":a: 1", ":a:", ":!a:", ":A: 2", ""]
    for ctx in CTX + [None]:
        for v in vals:
            for h in entries:
                for b in entries:
                    for h2 in ("", ":a: h2"):
                        if not c.thorough and h2 and r.random() < .5:
                            continue
                        doc = "= T\n" + h + ("\n" if h else "") + h2 + ("\n" if h2 else "") + "\n" + b + "\n\n{a}\n\n" + r.choice(["", ":a: 3\n\n{a}\n"])
                        d.add(doc, attrs=((("a", v, ctx),) if ctx else ()))
    names = ["a", "A", "b", "toc", "sectids", "hardbreaks", "hardbreaks-option", "empty", "sectnumlevels", "plus", "iconsdir", "sp"]
    forms = [":%s: 1", ":%s:", ":!%s:", ":%s!:", ":%s: {a}", ":%s: x \\\n  y"]
    for _ in range(c.size(1500, 20000)):
        a = tuple((n, r.choice(vals), r.choice(CTX)) for n in names[:6] if r.random() < .5)
        hd = [r.choice(forms) % r.choice(names) for _ in range(r.randint(0, 3))]
        bd = []
        for _ in range(r.randint(1, 5)):
            bd.append(r.choice([r.choice(forms) % r.choice(names), "", "{a} {b} {empty}", "====", "== {a}", "[x]"]))
        d.add("\n".join((["= T"] if r.random() < .7 else []) + hd + [""] + bd), attrs=a)
    # several documents read by one parser: what a document set stays, locks stay
    for _ in range(c.size(300, 4000)):
        a = tuple((n, r.choice(vals), r.choice(CTX)) for n in names[:3] if r.random() < .5)
        docs = []
        for _ in range(r.randint(2, 3)):
            docs.append("\n".join([r.choice(["= T", ""])] + [r.choice(forms) % r.choice(names[:4]) for _ in range(r.randint(0, 2))] + [""] +
                                  [r.choice([r.choice(forms) % r.choice(names[:4]), "{a}"]) for _ in range(r.randint(0, 2))]))
        d.add(*docs, attrs=a)
    # attributes that the title, author and revision lines imply
    implied = ["doctitle", "author", "firstname", "middlename", "lastname", "authorinitials", "email", "author_2", "firstname_2", "email_2",
               "lastname_2", "authorinitials_2", "middlename_2", "revnumber", "revdate", "revremark"]
    for n in implied:
        for ctx in CTX:
            for v in vals:
                d.add("= Doc\nAn B Cee <d@e.f>; Gu H Ii <j@k.l>\nv1, 2020: rem\n" + r.choice(["", ":%s: h\n" % n, ":author: X Y Z\n"]) + "\n{%s}\n\n:%s: z\n\n{%s}" % (n, n, n),
                      attrs=((n, v, ctx),), watch=implied)
    for _ in range(c.size(300, 4000)):
        a = tuple((n, r.choice(vals), r.choice(CTX)) for n in r.sample(implied, 4))
        hd = [r.choice(["= D", "= {author}", "= D {revnumber}"])] + [r.choice(["A B <c@d.e>", "A; B C", "An X_Y Cee", ":author: P Q R <s@t.u>", ":revnumber: 7", ":doctitle: x", ":email:", ":!author:"]) for _ in range(r.randint(0, 2))]
        hd += r.sample(["v1, 2020: rem", "2021", "v3"], r.randint(0, 1)) + ["", r.choice(["{author} {email}", ":author: body", ":revdate: 1\n\n{revdate}"])]
        d.add("\n".join(hd), attrs=a, watch=implied)
    d.run()
    return ("every combination of API value (value, set, unset), API permission (four contexts, none), header entries and "
            "body entry for one attribute; random sequences over twelve names including built-in and aliased ones, and "
            "several documents read by one parser: values afterwards, references, entries and locked-attribute warnings "
            "compared; LocksHold, OneRefusal and OnlyEntries hold on every behaviour of the specification")

def c09(c):
    r = c.rng
    d = Docs(c, cmp=("blocks", "hdr", "vals"), bf=["kind", "text", "title", "stitle", "attrlist", "attr", "kids"],
             hf=["title", "attrs", "author", "rev"], watch=["a", "b", "c"])
    small = [":a: 1", ":a: {a}2", ":!a:", "{a}", "", "----", "[{a}]"]
    exhaust(d, r, small, c.size(3, 4), 7, c.size(700, 9000))
    uses = ["{a}", "{1a}", "{_a}", "{a-1_b}", "{A-b} {-a}", "x {a}{b} y", "\\{a}", "{A}", "{nope} {a}", "{c}", "*{a}*", "{a", "{ a}", "{a }", "{sp}|{empty}|{plus}", "{b}{c}", "{a-b}", "{set:a:1}",
            "pass:a[{a}]", "`{a}`", "{é}", "{a}\\{b}", "\\\\{a}", "{{a}}", "{a}}", "+{a}+", "++{b}++", "http://{a}.y[{b}]", "<{a}>"]
    sets = [":a: 1", ":a: {b}", ":b: {a}x", ":b: *s* {c}", ":c: <&> {a}", ":!a:", ":!b:", ":c:", ":a: \\{b}", ":b: {nope}", ":c: pass:[<{a}>]", ":a: (C)",
            ":a: l1 \\\n  {b} l2", ":b: l1 + \\\n{a}", ":a-b: d", ":1a: one", ":_a: u {1a}", ":a-1_b: {_a}", ":A: up", ":c: {sp}", ":c: pass:q[*x*]"]
    for _ in range(c.size(1700, 22000)):
        a = tuple((n, r.choice([True, False, "v", "<w>", "{b}", "*q*"]), r.choice(CTX)) for n in "abc" if r.random() < .3)
        hd = []
        if r.random() < .5:
            hd = ["= " + r.choice(uses)] if r.random() < .8 else []
            if hd and r.random() < .3:
                hd.append(r.choice(["{a} {b} <x@y.z>", "Jo Doe", "{a}"]))
                if r.random() < .5:
                    hd.append(r.choice(["v{a}, {b}: {c}", "v1, {a}"]))
            hd += [r.choice(sets) for _ in range(r.randint(0, 3))]
            hd.append("")
        bd = []
        for _ in range(r.randint(1, 7)):
            k = r.randrange(8)
            u = r.choice(uses)
            bd += [[r.choice(sets)], [u], ["." + u, "p"], ["== " + u], ["[" + u + ",x={b}]", "q " + u], ["----", u, "----"],
                   ["[subs=%s]" % r.choice(["attributes", "normal", "none", "-a", "+a"]), r.choice(["----\n%s\n----" % u, u])],
                   ["====", r.choice(sets), u, "===="]][k]
            bd += [""] * (r.random() < .6)
        d.add("\n".join(hd + bd), attrs=a)
    for t in gen.many(r, gen.MANY["C09"], c.size(130, 260), c.size(4, 60)):
        d.add(t, attrs=(("a", "v", "any"), ("b", "w x", "any")))
    for t in gen.sweep(r, gen.SLOTS["C09"], c.size(.1, 1)):
        d.add("x " + t + r.choice(["", " y", "{b}"]), attrs=(("a", "v", "any"), ("b", "w", "any")))
        if r.random() < .3:
            d.add(":c: " + t + "\n\n{c}", attrs=(("a", "v", "any"),))
    d.run()
    return ("all documents of up to 3 (4) lines over entries, references, listing delimiters and attribute lists with "
            "references; random documents in which entries (in header, body and compound blocks) and references in every "
            "position interleave, over API values: rendered texts, titles, attribute lists, entry values and final values "
            "compared")

def c12(c):
    r = c.rng
    d = Docs(c, cmp=("blocks", "hdr", "warn", "refs", "nrefs", "vals"), bf=ALL, watch=["a", "sectnums", "idprefix", "author", "doctitle"])
    pieces = ["== A\n\na", "[appendix]\n== P", "=== B", ":sectnums:\n\n== A", "= T\nJo Doe\nv1, d: r\n:a: 1\n\n{a} {author}", "[#_a]\nx", "{a}",
              ":a: {a}+", "== A\n== A", ":idprefix: x\n\n== A", "[[i]]\nz", "----\nun", "======= no", ":!sectnums:", "== A {a}", "", "= T",
              ":a: z\n\n= Q {a}\n\n{doctitle}", "===== deep", ":sectnumlevels: 1\n\n== A\n\n=== B", "[appendix]\n=== Q\n\n== Z",
              ":sectnums:\n:sectnumlevels!:\n\n== A\n\n=== B\n\n==== C", ":sectnums:\n:sectnumlevels: x\n\n== A\n\n=== B"]
    for a, b in itertools.product(pieces, repeat=2):
        d.add(a, b, attrs=(("sectnums", True, "any"),) if r.random() < .4 else ())
    setting = lambda: r.choice([":sectnums:", ":sectnums!:", ":sectnumlevels: " + r.choice("0123x"), ":sectnumlevels!:", ":!sectnumlevels:", ":sectnumlevels:",
                                ":idprefix: q", ":idprefix!:", ":idprefix:", ":idseparator: -", ":idseparator!:", ":idseparator:", ":sectids!:", ":sectids:", ":doctype: book", ":a: 1", ":a!:"])
    tree = ["== A", "=== B", "==== C", "[appendix]\n== P", "== A", "text {a}", "[#_a]\n=== D", ":sectnums!:", ":sectnums:"]
    for _ in range(c.size(250, 4000)):
        d.add(*["\n".join([*(("= T",) if r.random() < .3 else ()), *(setting() for _ in range(r.randint(0, 3)))]) + "\n\n" +
                "\n\n".join(r.choice(tree) for _ in range(r.randint(1, 5))) for _ in range(r.randint(2, 3))])
    for _ in range(c.size(450, 7000)):
        docs = []
        for _ in range(r.randint(2, 4)):
            x = r.random()
            docs.append(r.choice(pieces) if x < .4 else g.document(r, 1, 3) if x < .8 else g.soup(r, hi=5))
        d.add(*docs, attrs=some_attrs(r))
    d.run()
    # the same text with a fresh parser of the same configuration: identical to the last detail
    hc = []
    for k in range(c.size(1500, 20000)):
        s = g.document(r, 2, 3) if k % 2 else g.soup(r)
        for j in (0, 1):
            hc.append({"id": "e%d-%d" % (k, j), "op": "parse", "docs": [s], "want": ["debug"],
                       "attrs": [["sectnums", True, "any"], ["a", "va", "any"]]})
    o = c.observe(hc)
    for k in range(0, len(hc), 2):
        x, y = o[hc[k]["id"]], o[hc[k + 1]["id"]]
        if c.outcome(hc[k], x) and c.outcome(hc[k + 1], y) and x["docs"] != y["docs"]:
            c.violation("two parses of one text differ", {"case": hc[k]})
    c.extra["texts_parsed_twice"] = len(hc) // 2
    return ("all ordered pairs of %d documents, and random sequences of up to four, read by one parser: everything each "
            "document reports (tree, header, warnings, registry, numbers) compared with the specification, in which only "
            "attributes outlive a document (invariant Afresh); texts parsed twice in different processes of the same "
            "harness compared by their full debug output" % len(pieces))

HDRW = ["DocumentHeaderNotTerminated"]
def c18(c):
    r = c.rng
    d = Docs(c, cmp=("hdr", "warn", "blocks", "vals"), bf=["kind", "span", "text", "attr", "kids"], warns=HDRW,
             watch=["doctitle", "author", "revnumber", "revdate", "revremark", "a", "authorinitials", "email"])
    small = ["= T", "Jo Doe", "v1, d: r", ":a: 1", "// c", "", "text more"]
    exhaust(d, r, small, c.size(4, 5), 7, c.size(900, 8000))
    more = g.HDR + small + ["=T", "= *b* {a} <c>", "=  T  ", "=\tT", "////", "///", "//", "\t", "  ", ":a:", ":!a:", ":a: x \\\n  y", ":a", ":x y: z", "== S",
                            "[x]", ".t", "A B", "2020", "v2", ":author: Q R", ":doctitle: D", " = T", "# T", "= T\r", "// c\r", ":é: x", "= ", "{a}", "-- c"]
    for _ in range(c.size(1200, 16000)):
        s = "\n".join(r.choice(more) for _ in range(r.randint(1, 7)))
        d.add(g.unspoil(r, s) if r.random() < .3 else s, attrs=tuple((n, r.choice([True, False, "v"]), r.choice(CTX)) for n in ("a", "doctitle", "author") if r.random() < .15))
    for t in gen.many(r, gen.MANY["C18"], c.size(130, 260), c.size(4, 60)):
        d.add(t)
    for t in gen.sweep(r, gen.SLOTS["C18"], c.size(.1, 1), ["\r"]):
        d.add(t)
    d.run()
    return ("all documents of up to 4 (5) lines over title, author, revision, entry, comment, blank and text lines, and "
            "random headers with near-miss lines, CRLF and edits: every part of the header, its span, the warning for an "
            "unterminated header, what is left for the body, and the attributes the header defines compared")

def c19(c):
    r = c.rng
    w = ["author", "firstname", "middlename", "lastname", "authorinitials", "email", "author_1", "author_2", "firstname_2", "middlename_2", "lastname_2",
         "authorinitials_2", "email_2", "author_3", "lastname_3", "revnumber", "revdate", "revremark"]
    d = Docs(c, cmp=("hdr", "vals"), hf=["author", "rev", "attrs"], watch=w, bf=[])
    d.cmp = ["hdr", "vals"]
    names = ["Jo", "Doe", "Mary_Sue", "de", "O'Neil", "J.", "日本", "é", "A-B", "x1", "_u_", "Ж"]
    mails = ["<a@b.cc>", "<>", "<x y>", "<a@b", "a@b.cc>", "<http://x.y>", "<{a}>", "<a>b>", "<<a>"]
    seps = [" ", "  ", "\t", "\u00a0", "; ", ";", " ;", ", "]
    for n in (1, 2, 3, 4):
        for t in itertools.product(["Jo", "M_S", "<a@b>", ";"], repeat=n):
            d.add("= T\n" + " ".join(t).replace(" ;", ";") + "\n")
    for _ in range(c.size(1200, 14000)):
        toks = []
        for _ in range(r.randint(1, 6)):
            toks.append(r.choice(names + names + mails + ["{a}", "{b}", "&", "&amp;", "#", "<", "*b*", "9", "(x)", "{a}{b}"]))
            toks.append(r.choice(seps[:2] if r.random() < .7 else seps))
        l = "".join(toks).strip()
        if r.random() < .15:
            l = g.spice(r, l, 4)
        s = "= T\n" + l + "\n"
        if r.random() < .3:
            s = "= T\n:author: " + l + r.choice(["", "\n:author_2: z", "\n:email: e@f"]) + "\n"
        d.add(s, attrs=(("a", r.choice(["Q R", "x", "<m@n>", "X & Y", "a b c d"]), "any"), ("b", r.choice(["B", "<q>"]), "any"))
              + ((("author", "L", r.choice(CTX)),) if r.random() < .1 else ()))
    for t in gen.many(r, gen.MANY["C19"], c.size(130, 260), c.size(4, 60)):
        d.add(t, attrs=(("a", "v", "any"), ("b", "w x", "any")))
    for t in gen.sweep(r, gen.SLOTS["C19"], c.size(.1, 1)):
        d.add(t, attrs=(("a", r.choice(["Q R", "x", "a b c d"]), "any"),))
    nums = ["v1.0", "1.0", "v", "v1", "V2", "ver3", "LPR55", "v{a}", "v٣", "1", "x", "", "v1 b"]
    dates = ["2020-01-01", "", "May 3", "{a}", "*d*", "a, b"]
    rems = ["rem", "", "a: b", "<r> & {b}", " spaced ", "(C)"]
    combos = list(itertools.product(nums, dates, rems, [", ", ",", " , "], [": ", ":", ""]))
    r.shuffle(combos)
    for a, b, e, k, co in combos[:c.size(700, len(combos))]:
        l = (a + (k if b else "") + b + co + e).strip() if co else (a + (k if b else r.choice(["", ","])) + b)
        if l.strip():
            if r.random() < .15:
                l = g.spice(r, l, 3)
            d.add("= T\nJo Doe\n" + l + "\n", attrs=(("a", "7", "any"), ("b", "<q>", "any"))
                  + ((("revnumber", "L", r.choice(CTX)),) if r.random() < .1 else ()))
    d.run()
    return ("all author lines of up to four parts over plain and underscored names, e-mail and semicolon; random author "
            "lines and author entries with references, Unicode, malformed e-mail parts and all separators; revision lines "
            "over all number, date and remark forms: each author's parts, the revision's parts and all derived attributes "
            "compared")

def c24(c):
    r = c.rng
    d = Docs(c, cmp=("blocks",), bf=BASIC + ["orig", "text", "style", "btype"])
    small = ["a", " b", "", "// c", "[x]", "'''", "+"]
    exhaust(d, r, small, c.size(4, 5), 7, c.size(500, 6000))
    more = ["a", "b c", " i", "  ii", "\ti", " \ti", "", " ", "\t", "// c", "//", "///", "////", "[x]", "[", "x]", "[x] ", " [x]", "+", " +", "a +", "<<<", "***", "'''",
            "---", "- - -", "* * *", "--", "----", "...", "....", "====", "__", "[[i]]", ".t", "[normal]", "[literal]", "[listing]", "[source]", "[quote]",
            ":a: b", "'''x", "<<< ", "a\\", "\u00a0x", "\u3000", "é", "a\r", "\r", "a \t", "x\u00a0", "== h", "image::x[]", "__ __", "*a", "_b_", "` `", " // c", "//  ", "a // b"]
    for _ in range(c.size(1700, 24000)):
        s = "\n".join(r.choice(more) for _ in range(r.randint(1, 8)))
        d.add(g.unspoil(r, s) if r.random() < .25 else s)
    for t in gen.many(r, gen.MANY["C24"], c.size(130, 260), c.size(4, 60)):
        d.add(t)
    for t in gen.sweep(r, gen.SLOTS["C24"], c.size(.1, 1), ["\r"]):
        d.add(t)
    soups(d, r, c.size(200, 3000), weights(plain=4, inline=1, indent=4, blank=2, comment=2, delim=1, attr=2, **{"break": 3}))
    d.run()
    return ("all documents of up to 4 (5) lines over text, indented, blank, comment, attribute-list, break and plus lines, "
            "random ones over %d line forms including near-misses, CR, tabs and Unicode white space: kind, style, span, "
            "rendered text and break type compared" % len(more))

METAW = ["MissingBlockAfterTitleOrAttributeList", "EmptyBlockAnchorName", "InvalidBlockAnchorName"]
def c25(c):
    r = c.rng
    d = Docs(c, cmp=("blocks", "warn", "refs"), bf=BASIC + META, warns=METAW)
    small = [".T", "[[i,r]]", "[#j.s%o]", "a", "", "====", "== H"]
    exhaust(d, r, small, c.size(4, 5), 7, c.size(500, 5000))
    targets = ["a", "----\nx\n----", "====\nx\n====", "image::p[]", "'''", "== H", ":a: b", " lit", "// c\na", "--\nx\n--", "", "//", "[x", "++++\n++++", "<<<"]
    meta = g.TITLE + g.ATTR + g.ANCHOR
    def some_meta():
        x = r.random()
        if x < .75:
            return r.choice(meta)
        if x < .83:
            return "." + gen.frag(r, 0, 3)
        if x < .91:
            return "[[" + gen.frag(r, 0, 3) + r.choice(["", ",", ", "]) + gen.frag(r, 0, 2) + r.choice(["]]", "]]", "]", "]]]", "]] "])
        return "[" + gen.attr_items(r) + r.choice(["]", "]", "]]", "] "])
    for _ in range(c.size(1500, 22000)):
        m = [some_meta() for _ in range(r.randint(1, 4))]
        if r.random() < .15:
            m.insert(r.randrange(len(m) + 1), r.choice(["", " ", "// c", ":a: q"]))
        s = ("x\n\n" if r.random() < .3 else "") + "\n".join(m + [r.choice(targets)] + r.choice([[], ["z"], ["", "z"], ["", "[w]", "z"]]))
        if r.random() < .2:
            s = "====\n" + s + "\n====\n"
        if r.random() < .1:
            s = g.spice(r, s, 3)
        d.add(g.unspoil(r, s) if r.random() < .15 else s, attrs=(("a", r.choice(["v", "#k", "x y", "literal"]), "any"),))
    # three lines of metadata of every kind, well-formed or not
    kinds = [".T", ". no", "..", "[[i]]", "[[j,r s]]", "[[1]]", "[[2,t]]", "[[]]", "[#k.s]", "[a=\"b]", "[x,y=z]", "[.r.]", "[[l]", "[]", "[discrete]", ":a: b"]
    for t in itertools.product(kinds, repeat=3):
        if r.random() < c.size(.25, 1):
            d.add("\n".join(t) + "\n" + r.choice(["a", "a", "== H", "----\nx\n----", "image::p[]", "", "<<<"]))
    for t in gen.many(r, gen.MANY["C25"], c.size(130, 260), c.size(4, 60)):
        d.add(t)
    for t in gen.sweep(r, gen.SLOTS["C25"], c.size(.1, 1), ["\r"]):
        d.add(t)
    d.run()
    return ("all documents of up to 4 (5) lines over title, anchor, attribute list, text, blank, delimiter and heading; "
            "every kind of metadata line (malformed ones too) in random order before every kind of block: titles, anchors, "
            "reference texts, attribute lists, styles, IDs, roles, options and the metadata warnings compared")

def c26(c):
    r = c.rng
    d = Docs(c, cmp=("blocks", "warn"), bf=BASIC + MEDIA + ["text", "tsrc"])
    kinds = ["image", "video", "audio", "Image", "icon", "imag", "images"]
    colons = ["::", ":", ":::", ": :", "::  "]
    tg = ["p.png", "a b", "", "{a}", "x/y.z", "é", "[", "a]b", " p", "p ", "http://x.y/z", "a\tb", "::", "-", "x_y*z*"]
    al = ["[]", "[alt]", "[alt,1,2]", "[a=b]", "[\"q,r\",s='t']", "[", "]", "", "[a][b]", "[a]]", "[[a]]", "[a] ", "[a]x", "[a]\t", "[{a}]", "[#i.r%o]",
          "[,x]", "[a,,b]", "[a=]", "[ x]", "[x ]", "[a,a]", "[opts=u]", "[\\]]", "[a\\,b]", "[\"u]", "[=v]", "[é]"]
    combos = list(itertools.product(kinds, colons, tg, al))
    r.shuffle(combos)
    for k, co, t, a in combos[:c.size(2200, len(combos))]:
        s = k + co + t + a
        s = r.choice(["%s", "%s", "%s", "%s\n", "%s\nz", "z\n%s", ".T\n%s", "[r]\n%s\n", "====\n%s\n====", " %s", "%s\r\nq", "%s\n\n%s", "[[i]]\n%s"]).replace("%s", s)
        d.add(s, attrs=(("a", r.choice(["v", "x y"]), "any"),))
    for k in kinds[:3]:
        for t, a in itertools.product(tg, al):
            d.add(k + "::" + t + a, attrs=(("a", "v", "any"),))
    for _ in range(c.size(500, 9000)):
        s = r.choice(kinds[:3]) + "::" + gen.frag(r, 0, 4) + "[" + gen.attr_items(r) + r.choice(["]", "]", "]", "]]", "] ", "]x", ""])
        d.add(g.spice(r, s) if r.random() < .1 else s, attrs=(("x", r.choice(["v", "a,b=c", "x]y"]), "any"),))
    for t in gen.many(r, gen.MANY["C26"], c.size(130, 260), c.size(4, 60)):
        d.add(t)
    for t in gen.sweep(r, gen.SLOTS["C26"], c.size(.1, 1), ["\r"]):
        d.add(t)
    d.run()
    return ("media lines built from every combination (sampled in the quick tier; all with the exact macro name) of macro "
            "name, colons, target and attribute list, alone, with metadata, in compound blocks and beside other lines: "
            "kind, type, target, attribute list, warnings or the paragraph they stay compared")

def c27(c):
    r = c.rng
    d = Docs(c, cmp=("blocks", "hdr", "vals"), bf=["kind", "span", "attr", "text", "kids"], hf=["attrs", "span"],
             watch=["a", "b", "a-b", "a_b", "1", "x", "hardbreaks", "hardbreaks-option", "y"])
    pre = [":", ":!", "", " :", "::"]
    nm = ["a", "A", "a-b", "a_b", "1", "-a", "é", "a b", "", "!a", "_x", "a.b"]
    post = [":", "!:", "", ": ", "!: ", ":v"]
    vl = ["", "v", " v", "v ", "v w", "{a}", "<b> & c", "v \\\n  w", "v + \\\nw", "v \\\n\nz", "v \\", "\\", "*s*", "pass:[<i>]", "v +", "v\\\nw", "v \\\n \\\n w", "v \\  \nw", "x\\y",
          "é 日", "'q'", "v\t", "\tv", "v \\\r\n w", "(C)", "v \\\n  w + \\\n  u", " + \\\n x"]
    for p, n, q in itertools.product(pre, nm, post):
        for where in ("h", "b"):
            v = r.choice(vl)
            for s in {p + n + q + v, p + n + q + " " + v}:
                d.add(("" if where == "h" else "x\n\n") + s + r.choice(["", "\n", "\nz", "\n\n{a}"]), attrs=(("a", "va", "any"),) if r.random() < .5 else ())
    for v, v2 in itertools.product(vl, vl):
        if c.thorough or r.random() < .6:
            w = r.choice(["", "x\n\n", "= T\n", "====\n"])
            d.add(w + ":a: " + v + "\n:b: " + v2 + r.choice(["", "\n{a}{b}", "\n\n{a}|{b}"]))
    ws = lambda: "".join(r.choice([" ", " ", "\t", "\u00a0", "\u3000", "\u2028", "\x0b", "\r"]) for _ in range(r.choice([0, 0, 1, 1, 2, 3])))
    word = lambda: r.choice(["v", "w", "é", "日", "{a}", "<b>", "&", "+", "\\", "x\\y", "'", "//", ":b: c", ""])
    for _ in range(c.size(500, 8000)):
        v = ws() + word()
        for _ in range(r.randint(0, 3)):
            v += ws() + r.choice(["\\", "+ \\", "+\\", "\\\\", "+", ""]) + r.choice(["", "", "", ws()]) + r.choice(["\n", "\n", "\n", "\r\n", "\n\n"]) + ws() + word()
        d.add(r.choice(["", "x\n\n", "= T\n", "====\n"]) + r.choice([":a:", ":a:", ":A-b:", ":!a:"]) + r.choice([" ", " ", "  ", "\t", ""]) + v + r.choice(["", "\n", "\n\n|{a}|", "\n{a}"]))
    for _ in range(c.size(700, 12000)):
        ls = [r.choice(g.ENTRY + g.CONT + ["", "{a}", "p", ":y: {x}", ":x: 1 \\"]) for _ in range(r.randint(1, 6))]
        s = "\n".join(ls)
        d.add(g.unspoil(r, s) if r.random() < .3 else s)
    for t in gen.many(r, gen.MANY["C27"], c.size(130, 260), c.size(4, 60)):
        d.add(t)
    for t in gen.sweep(r, gen.SLOTS["C27"], c.size(.1, 1), ["\r"]):
        d.add(t + r.choice(["", "\n\n{a}"]))
    d.run()
    return ("entries from every combination of leading mark, name, closing mark, with values of %d forms including "
            "continuations, references, specials and pass macros, in header, body and compound blocks; pairs of entries; "
            "random sequences with continuation-like lines: reported entries, values, spans, neighbouring text and final "
            "attribute values compared" % len(vl))

CHECKS = {"C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C12": c12, "C18": c18, "C19": c19,
          "C24": c24, "C25": c25, "C26": c26, "C27": c27}
