"""Document generators: lines of every kind, put together exhaustively or at random."""
import itertools
from gen import MORE

PLAIN = ["para", "one two", "text.", "a b", "éa 日", "x"]
INLINE = ["*b* and _c_", "see {x} here", "a <b> & c", "{later} {a}", "it's -- (C)", "http://x.y[t]", "end +", "[[in]]z"]
INDENT = [" lit", "  lit two", "\tlit", "    deep"]
BLANK = ["", " ", "\t", "  "]
COMMENT = ["// note", "//", "///x"]
DELIM = ["----", "....", "++++", "////", "====", "****", "____", "--"]
DELIM2 = ["-----", "=====", "***", "_____", "---- ", "----\t", "-----x", "......", "---", "===", "+++++", "/////", "******", " ----", "--- -", "-- ", "--x"]
ATTR = ["[quote]", "[source]", "[.r]", "[#i]", "[#i.r%o]", "[normal]", "[literal]", "[listing]", "[discrete]",
        "[float]", "[appendix]", "[a,b=c]", "[subs=\"quotes\"]", "[subs=\"none\"]", "[%hardbreaks]", "[id=i]",
        "[role=\"q s\"]", "[reftext=RT]", "[ x]", "[]", "[x", "[example]", "[verse]", "[#]", "[.]", "[,x]",
        "[opts=\"u,v\"]", "[\"q\"]", "[x,x]", "[{a}]", "[[a]", "[a]]", "[=c]", "[a b]", "[style=q]", "[a=\"b]", "[a=\"b\"c]", "[a=,b]", "[,,]", "[.r.]", "[##i]", "[%]", "[a='b]"]
ANCHOR = ["[[i]]", "[[j,ref text]]", "[[i,]]", "[[]]", "[[1x]]", "[[é]]", "[[a b]]", "[[k, {a}]]", "[[_x.y-z:w]]", "[[,t]]", "[[i]"]
TITLE = [".Title", ".*T* {a}", "..no", ". no", ".", ".é", ".T..", "...", ".a <b>"]
BREAK = ["'''", "---", "- - -", "***", "* * *", "<<<", "''''", "'''x", "<<<<", "--- ", " '''"]
MEDIA = ["image::p.png[]", "image::a b.png[alt,1,2]", "video::v[opts=x]", "audio::s.mp3[a=b]", "image::[]",
         "image::x", "image::x[y", "image::x[y] z", "image::{a}[{a}]", "video::x[[y]]", "image:x[]", "image:: x[]",
         "image::x[a,,b]", "audio::x[\"q,r\",s='t']", "image::a[b[c]", "Image::x[]", "image::x[]]", "icon::x[]"]
HEAD = ["== A", "=== B", "==== C", "===== D", "====== E", "== A", "## H", "### I", "#### J", "== B c", "== *b* {a} C"]
BADHEAD = ["= Z", "# Z", "======= Y", "####### Y", "==", "==x", "###", "== ", "==\tT", "=#= x", "=", "#tag", "======", "=x", " == A"]
ENTRY = [":a: 1", ":a: {a}b", ":b: x \\", ":c:", ":!a:", ":a!:", ":a: <x> & {b}", ":sectnums:", ":!sectnums:", ":sectids!:",
         ":idprefix: p-", ":idseparator: -", ":sectnumlevels: 2", ":x:y", ":x y: z", ":A: up", ":-a: n", ":a_b-c: d",
         ":hardbreaks:", ":a: v + \\", ":later: z", ":1: d", ":a:  sp ", ":é: e", ": a: v", "::a: b", ":a", ":!a!: x",
         ":idprefix:", ":idseparator: ", ":sectnumlevels: 1", ":sectnumlevels: x", ":hardbreaks-option:"]
CONT = ["  more", "\\", "x \\", "y + \\", "z"]
HDR = ["= Title", "= T *b* {a}", "// c", ":a: h", "Doc Writer", "A B C <m@n.o>", "v1.0, 2020-01-01: rem", "2020", "v2",
       "=Title", "= ", "#  T", "", ":author: X Y <z@w>", ":revnumber: 3", "Jane_K Doe; Bob"]

CLASSES = {"plain": PLAIN, "inline": INLINE, "indent": INDENT, "blank": BLANK, "comment": COMMENT, "delim": DELIM,
           "delim2": DELIM2, "attr": ATTR, "anchor": ANCHOR, "title": TITLE, "break": BREAK, "media": MEDIA,
           "head": HEAD, "badhead": BADHEAD, "entry": ENTRY, "cont": CONT}

# Every attribute the parser reads by name, with values that are usual, wrong and hostile.
KNOWN = ["idprefix", "idseparator", "sectids", "sectnums", "sectnumlevels", "hardbreaks-option", "hardbreaks", "imagesdir", "iconsdir", "icontype", "icons",
         "hide-uri-scheme", "doctitle", "author", "revnumber", "doctype", "appendix-caption", "toc", "empty", "sp", "plus"]
HOSTILE = ["", "", "-", "_", "--", ".", "..", "é", "日", "é日", "😀", "\u0301", "a b", "0", "1", "3", "6", "99999999999999999999", "-1", "+2", " 2", "2x", "x", "<", "&", "\"", "'", "(", ")", "*", "[", "]",
           "\\", "\\d", "$1", "$0", "${1}", "^", "{idprefix}", "{", "}", "{a}", "A-Z", "x" * 60, "é" * 20, "/", "http://h/", "../", "font", "svg", "\u00a0", "_-.", "-_", "1a", "#"]

def setting(r, name=None):
    """An entry that sets a known attribute."""
    n = name or r.choice(KNOWN)
    x = r.random()
    if x < .12:
        return r.choice([":!%s:", ":%s!:"]) % n
    return (":%s: %s" % (n, r.choice(HOSTILE))).rstrip(" ") if x < .95 else ":%s:" % n.upper()

def api_settings(r, ctxs=("any", "api", "header", "body"), n=2):
    return [[r.choice(KNOWN), r.choice([True, False] + HOSTILE), r.choice(ctxs)] for _ in range(r.randint(0, n))]

def spice(r, s, n=1):
    """Put rare characters into a text."""
    for _ in range(r.randint(1, n)):
        k = r.randint(0, len(s))
        s = s[:k] + r.choice(MORE) + s[k:]
    return s

def line(r, weights):
    ks = list(weights)
    k = r.choices(ks, [weights[x] for x in ks])[0]
    return r.choice(CLASSES[k])

EVEN = {k: 1 for k in CLASSES}
EVEN.update(blank=4, plain=3, delim=2, head=2)

def soup(r, weights=EVEN, lo=1, hi=10):
    """Random lines."""
    return "\n".join(line(r, weights) for _ in range(r.randint(lo, hi))) + r.choice(["", "\n", "\n", "\n\n"])

def unspoil(r, s):
    """A random edit: CRLF ends, trailing blanks, a character inserted or deleted."""
    x = r.random()
    if x < 0.25:
        return s.replace("\n", "\r\n")
    if x < 0.4:
        l = s.split("\n")
        k = r.randrange(len(l))
        l[k] += r.choice([" ", "  ", "\t", "\r", "\u00a0", "\u3000"])
        return "\n".join(l)
    if x < 0.7 and s:
        k = r.randrange(len(s))
        return s[:k] + s[k + 1:]
    if x < 0.9:
        k = r.randrange(len(s) + 1)
        return s[:k] + r.choice(list("=#-.[]:!\\+*_/'<,\t \n\r\"{}é日\u00a0\u2003\u0301") if r.random() < .85 else MORE) + s[k:]
    return s

def block(r, depth):
    """A well-formed block, as lines."""
    out = []
    if r.random() < .3:
        m = [r.choice(TITLE[:2] + [".é"])] if r.random() < .5 else []
        m += [r.choice(ATTR[:20])] if r.random() < .5 else []
        m += [r.choice(ANCHOR[:3])] if r.random() < .3 else []
        r.shuffle(m)
        out += m
    k = r.randrange(8 if depth else 6)
    if k <= 1:
        out += [r.choice(PLAIN + INLINE) for _ in range(r.randint(1, 3))]
    elif k == 2:
        out += [r.choice(INDENT) for _ in range(r.randint(1, 3))]
    elif k == 3:
        out += [r.choice(MEDIA[:4] + BREAK[:6])]
    elif k == 4:
        out += [r.choice(ENTRY[:12])]
    elif k == 5:
        d = r.choice(DELIM[:4])
        out += [d] + [r.choice(PLAIN + INLINE + ["", " x", "=== h", "--", ":a: 2"]) for _ in range(r.randint(0, 3))] + [d]
    else:
        d = r.choice(DELIM[4:])
        out += [d] + body(r, depth - 1, r.randint(0, 2)) + [d]
    return out

def body(r, depth, n):
    out = []
    for _ in range(n):
        out += block(r, depth) + [""] * r.randint(0, 2)
    return out

def document(r, depth=2, sections=4, header=0.5):
    """A mostly well-formed document."""
    out = []
    if r.random() < header:
        out += ["= " + r.choice(PLAIN)]
        if r.random() < .4:
            out += [r.choice(HDR[4:6])]
            if r.random() < .5:
                out += [r.choice(HDR[6:9])]
        for _ in range(r.randint(0, 2)):
            out += [r.choice(ENTRY[:14])]
        out += [""]
    out += body(r, depth, r.randint(0, 2))
    lv = 1
    for _ in range(r.randint(0, sections)):
        if r.random() < .25:
            out += [r.choice(["[appendix]", "[discrete]", "[#i]", "[[j]]", "[reftext=RT]", ".T", "[%o]", "[float]"])]
        out += [r.choice(["=", "=", "=", "#"]) * (lv + 1) + " " + r.choice(PLAIN)]
        out += [""] * r.randint(0, 1) + body(r, depth, r.randint(0, 2))
        lv = min(5, max(1, lv + r.choice([-2, -1, 0, 0, 1, 1, 2])))
    return "\n".join(out) + r.choice(["", "\n"])
