"""Checks decided with the inline specification: C13-C16, C21-C23."""
import itertools
import gen
import gendoc as g
from doc import Docs
from inline import Inline, WRAPS

BLOCKS = ["listing", "literal", "pass", "para"]

def c16(c):
    run, r = Inline(c), c.rng
    q = 'subs="quotes"'
    n = 'subs="normal"'
    toks = ["a", " ", "*", "_", "[.r]", "\\"]
    for s in gen.product_texts(toks, c.size(5, 6)):
        if "*" in s or "_" in s:
            if len(s) > 2:
                run.add(s, al=q, rend="sym")
    # every kind of mark in every small context
    marks = [("*", "*"), ("**", "**"), ("_", "_"), ("__", "__"), ("`", "`"), ("``", "``"), ("#", "#"),
             ("##", "##"), ("^", "^"), ("~", "~"), ("\"`", "`\""), ("'`", "`'")]
    before = ["", "a", " ", "\n", "é", "&", ";", "}", "\"", "\\", ".", "[.r]", "\\[.r]", "a[r]", "٣", "\u00a0"]
    after = ["", "a", " ", ".", "'", "\"", "`", "é", "_", "*", "\n", "½", "\u0301"]
    bodies = ["b", "b c", " b", "b ", "", "b\nc", "é", "**", "_b_", "b*c", "\\", "`"]
    combos = list(itertools.product(marks, before, after, bodies))
    r.shuffle(combos)
    for (o, cl), b, a, t in combos[:c.size(2500, len(combos))]:
        run.add(b + o + t + cl + a, al=r.choice([q, n]), rend=r.choice(["sym", "html"]))
    pools = [gen.MARKS, gen.MARKS, gen.WORDS, gen.SPACES, gen.PUNCT, gen.AL, ["\\"], gen.UNI]
    for _ in range(c.size(2500, 40000)):
        run.add(gen.sentence(r, pools, 3, 14), wrap=r.choice(BLOCKS), al=r.choice([q, n, n, None]),
                rend=r.choice(["sym", "html"]))
    for t in gen.many(r, gen.MANY["C16"], c.size(130, 260), c.size(5, 60)):
        run.add(t, al=r.choice([q, n]), rend=r.choice(["sym", "html"]))
    for t in gen.sweep(r, gen.SLOTS["C16"], c.size(.1, 1), ["\n"]):
        run.add(t, al=r.choice([q, n]), rend=r.choice(["sym", "html"]))
    run.run()
    return ("all texts of up to 5 (6) tokens over {a, space, *, _, [.r], backslash} plus every mark in small "
            "contexts and random mark soups, each rendered by the real parser and by the specification")


UNIVERSAL = ["*b* <i> & {x} (C) http://x.y[t] a -- b\nz",
             "a`m`&amp;{y} it's... link:u[t] end +\nnext _e_",
             "x +p<+ pass:q[*s*] ->\n&#167; {sp}--{plus} [[id]]"]
ONELINE = ["b *b* <i> & {x} (C) http://x.y[t] a -- b", "a`m`&amp;{y} it's... link:u[t] end _e_ +++<u>+++",
           "x +p<+ pass:q[*s*] -> &#167; {sp}--{plus}"]
STEPS = ["c", "specialcharacters", "specialchars", "q", "quotes", "a", "attributes", "r", "replacements", "m",
         "macros", "p", "post_replacements"]
GROUPS = ["n", "normal", "v", "verbatim", "none"]
BADSTEPS = ["", "x", "C", "quote", "callouts", "pass", "title", "header", "none ", "+", "-", "+-q", "q+q", "-q+"]
FULLATTRS = (("x", "v*x*"), ("y", "<v>&(C)"), ("on", True), ("un", False))

def c13(c):
    run, r = Inline(c), c.rng
    items = [p + st + q for st in STEPS + ["x"] for p, q in (("", ""), ("+", ""), ("", "+"), ("-", ""))]
    def go(v, wrap=None, style=None):
        wrap = wrap or r.choice(["listing", "literal", "pass", "para"])
        q = '"' if "," in v else r.choice(['"', "", "'"] if v and v[0] not in "\"'" else ['"'])
        al = (style or "") + ("," if style else r.choice(["", "", "", "%hardbreaks,"])) + "subs=" + q + v + q
        run.add(r.choice(UNIVERSAL), wrap=wrap, al=al, attrs=FULLATTRS, rend=r.choice(["html", "sym"]))
    # no subs: every position a text may stand in, every style
    for w in WRAPS:
        for t in ONELINE + UNIVERSAL:
            for rend in ("html", "sym"):
                run.add(t, wrap=w, attrs=FULLATTRS, rend=rend)
                if w in ("listing", "literal", "pass", "para", "comment"):
                    for st in ["pass", "normal", "literal", "listing", "source", "verse", "quote", "stem", "%pass", ".pass",
                               "x,pass", "pass#i", "subs", "comment", "example"]:
                        run.add(t, wrap=w, al=st, attrs=FULLATTRS, rend=rend)
    for w in ("listing", "pass", "para", "literal", "comment"):
        for v in GROUPS + BADSTEPS + items + ["n,q", "v,q", "+n", "-n", "n+", "none,q", "q,none", "q,n", "c,v", "q,+n"]:
            for _ in range(2):
                go(v, w)
                go(v, w, r.choice(["pass", "source", "normal", "listing", "literal"]))
    pairs = list(itertools.product(items, items))
    r.shuffle(pairs)
    for a, b in pairs[:c.size(900, len(pairs))]:
        go(a + r.choice([",", ", ", " , "]) + b)
    for _ in range(c.size(1200, 20000)):
        n = r.randint(2, 6)
        l = [r.choice(items if r.random() < .9 else GROUPS + BADSTEPS) for _ in range(n)]
        if r.random() < .5:
            l = [x.strip("+-") for x in l]
        go(",".join(l))
    for _ in range(c.size(500, 10000)):
        # random texts under random substitution lists
        l = [r.choice(["", "", "+", "-"]) + r.choice(STEPS) for _ in range(r.randint(1, 4))]
        t = gen.sentence(r, [gen.MARKS, gen.WORDS, gen.SPACES, gen.SPECIALS, gen.REPL, gen.REFS, gen.MACRO], 3, 10)
        run.add(t, wrap=r.choice(BLOCKS), al='subs="%s"' % ",".join(l), attrs=FULLATTRS, rend=r.choice(["html", "sym"]))
    run.run()
    # the group of every kind of block, wherever its attribute list stands and whatever else it holds
    d = Docs(c, cmp=("blocks", "warn"), bf=["kind", "ctx", "sg", "text", "title", "stitle", "kids"])
    subs = GROUPS + ["q", "+q", "-c", "a+", "c,q", "+m,-q", "x", "", "q,a", "m", "p", "-m", "+r"]
    def meta():
        v = r.choice(subs)
        return r.choice(['[subs="%s"]', "[subs='%s']", '[x,subs="%s"]', '[pass,subs="%s"]', '[subs="%s",subs=q]', '[.r,a=b,subs="%s"]', '[pass]',
                         '[source]', '[%hardbreaks,subs="%s"]', '[#i%o,subs="%s"]', '[literal,subs="%s"]', '[listing]', '["pass"]', '[.pass]',
                         '[ pass ]', '[pass%o]', '[subs="{s}"]']).replace("%s", v)
    text = "*b* <i> {y} (C) a -- b\nlink:u[t] +x+"
    shells = ["@\n~", "@\n----\n~\n----", "@\n....\n~\n....", "@\n++++\n~\n++++", "@\n////\n~\n////", "@\n----\n~", "@\n====\n~\n====", "@\n--\n~\n--",
              "@\n____\n~\n____", "@\n****\n~\n****", "@\n  ~", "@\n.*T* {y} <z>\n~", ".*T* +y+\n@\n----\n~\n----", "@\n== *S* {y} <z>\n\n~",
              "[[k]]\n@\n++++\n~\n++++\n\nz *z*", "====\n@\n----\n~\n----\n\n~\n====", "@\n\n~", "x\n@\n~", "@\n// c\n~", "@\n[b]\n----\n~\n----",
              "----\n@\n~\n----", "@\n'''\n\n~", "@\n:q: ~"]
    def shell(t):
        return r.choice(shells).replace("@", meta()).replace("~", t)
    for _ in range(c.size(700, 9000)):
        s = shell(r.choice([text] * 4 + ONELINE + UNIVERSAL))
        if r.random() < .3:
            s += "\n\n" + shell(text)
        d.add(g.unspoil(r, s) if r.random() < .1 else s, attrs=(("y", "<v>&(C)*q*", "any"), ("s", r.choice(subs), "any")))
    for t in gen.many(r, gen.MANY["C13"], c.size(16, 60), c.size(2, 40)):
        d.add(t)
    d.run()
    return ("every kind of text position with every style, every substitution name and prefix, lists of up to 6, on texts "
            "in which every step has something to do; whole documents with such attribute lists before every kind of "
            "block: each block's group and texts compared")

def c14(c):
    run, r = Inline(c), c.rng
    for s in gen.product_texts(["<", ">", "&", "a", ";", "lt", "#1"], c.size(4, 5)):
        run.add(s, wrap="listing", rend="html")
    for _ in range(c.size(3500, 60000)):
        t = gen.sentence(r, [gen.SPECIALS, gen.SPECIALS, gen.WORDS, gen.SPACES, gen.MARKS, gen.REPL, gen.MACRO, gen.REFS,
                             gen.AL, gen.PASS[:4]], 2, 12)
        w = r.choice(list(WRAPS))
        al = r.choice([None, None, 'subs="normal"', 'subs="c,q"', 'subs="+q"', 'subs="q,c"', 'subs="a,c"', "%hardbreaks"])
        run.add(t, wrap=w, al=al if w in BLOCKS else None,
                attrs=(("x", "v"), ("y", r.choice(["<v>&", "&lt;", "a>b"])), ("on", True), ("un", False)), rend=r.choice(["html", "html", "sym"]))
    # specials inside every macro and mark
    inner = ["<", ">", "&", "<b>", "a&b", "&lt;", "->", "<=", "&#167;"]
    shells = ["*%s*", "[.r]#%s#", "`%s`", "^%s^", "\"`%s`\"", "link:u[%s]", "link:%s[t]", "http://x.y?%s[t]", "http://x.y?%s",
              "<http://x.y?%s>", "image:p%s.png[]", "image:p.png[%s]", "image:p.png[title=%s]", "icon:i[alt=%s]", "[[i,%s]]",
              "anchor:i[%s]", "mailto:a@b[n,%s,x]", "a%sb@c.de", "[role=%s]#t#", "{x}%s", "a %s +\nb", "\\*%s*", "(%s)", "'%s'",
              "link:u[\"%s\",role=r]", "link:u[window=%s]", "+%s+", "++%s++", "pass:q[%s]", "pass:c[%s]", "+++%s+++", "$$%s$$",
              "[.r]+%s+", "[.r]++%s++", "[.r]+++%s+++", "[.r]$$%s$$", "[x-]+%s+", "[x-]++%s++", "[#i.r x-]++%s++", "[x-]`%s`", "[.r x-]`%s`", "\\+%s+",
              "\\++%s++", "\\$$%s$$", "[.r]\\++%s++", "\\[.r]++%s++", "\\pass:[%s]", "pass:n[%s]", "pass:v[%s]", "pass:a[%s]", "pass:q,c[%s]", "*+%s+*", "`+%s+`",
              "[%s]#t#", "[role=\"%s\"]*t*", "link:u[role=\"%s\"]", "image:p.png[link=\"%s\"]", "**%s**", "~%s~", "'`%s`'", "__%s__", "\\link:u[%s]", "\\http://x.y?%s"]
    for sh in shells:
        for i in inner:
            for w in ("listing", "para"):
                for rend in ("html", "sym"):
                    run.add(sh.replace("%s", i), wrap=w, al='subs="normal"', attrs=FULLATTRS, rend=rend)
    run.run()
    return "all texts of up to 4 (5) tokens over special characters plus random texts in which specials meet every other construct"

def c15(c):
    run, r = Inline(c), c.rng
    n = 'subs="normal"'
    inner = ["<u>", "*b*", "{x}", "(C)", "a--b", "&amp;", "http://x.y", "b]", "b\\]c", "a\nb", " a", "a ", "", "+", "`c`", "_", "é", "\\", "'",
             "it's", "[.r]#q#", "image:i.png[]", "pass:[z]", "x@y.zz", "\u00960\u0097", "++", "$$", "a +b+ c", "{sp}"]
    shells = ["+%s+", "++%s++", "+++%s+++", "$$%s$$", "pass:[%s]", "pass:c[%s]", "pass:q[%s]", "pass:a,q[%s]", "pass:n[%s]",
              "pass:zz[%s]", "pass:c,-q[%s]", "pass:m,r[%s]", "pass:quotes,attributes[%s]", "[x-]`%s`", "[.r x-]`%s`", "[.r]+%s+", "[.r]++%s++",
              "[.r]+++%s+++", "[x-]+%s+", "[x-]++%s++", "[.r x-]++%s++", "[#i.r]$$%s$$", "`+%s+`", "*+%s+*", "\\+%s+", "\\++%s++",
              "\\+++%s+++", "\\\\+%s+", "\\\\++%s++", "\\pass:[%s]", "\\[.r]+%s+", "\\[.r]++%s++", "[.r]\\+%s+", "[.r]\\++%s++", "[.r]\\\\++%s++",
              "pass:v[%s]", "pass:p[%s]", "+%s++", "pass:Q[%s]", "pass:,q[%s]", "pass:q,[%s]", ";+%s+", ":+%s+", "\\`+%s+`", "[.r]`+%s+`", "pass::[%s]"]
    ctxs = [("", ""), (" ", " "), ("a", ""), ("", "b"), ("*", "*"), ("(", ")"), ("\n", "\n"), ("+", "+"), ("é", "é"), ("<", ">"), ("link:u[", "]"),
            ("`", "`"), ("[.r]#", "#"), ("{x}", "{y}"), ("&", ";"), ("\\", ""), ("http://x.y[", "]"), ("image:a.png[", "]")]
    combos = list(itertools.product(shells, inner, ctxs))
    r.shuffle(combos)
    for sh, i, (b, a) in combos[:c.size(3500, len(combos))]:
        run.add(b + sh.replace("%s", i) + a, wrap=r.choice(["listing", "para", "literal"]), al=n, attrs=FULLATTRS, rend=r.choice(["html", "sym"]))
    for sh in shells:
        run.add(sh.replace("%s", "<b>*c*{x}"), wrap="listing", al=n, attrs=FULLATTRS, rend="html")
    # several passthroughs in one text, nested and adjacent; other groups
    for _ in range(c.size(2500, 40000)):
        parts = []
        for _ in range(r.randint(1, 5)):
            if r.random() < .55:
                t = r.choice(shells).replace("%s", r.choice(inner))
                if r.random() < .2:
                    t = r.choice(shells).replace("%s", t)
                parts.append(t)
            else:
                parts.append(r.choice(gen.PASS + gen.MARKS + gen.WORDS + [" ", " ", "\n", "<", "{x}", "(C)", "\\"]))
        w = r.choice(["listing", "para", "pass", "listing", "btitle", "stitle", "htitle", "attrval"])
        al = r.choice([n, n, n, 'subs="macros"', 'subs="c,m"', 'subs="q,m,c"', 'subs="c,q"', None])
        run.add("".join(parts), wrap=w, al=al if w in BLOCKS else None, attrs=FULLATTRS, rend=r.choice(["html", "sym"]))
    # more than ten passthroughs: indices of two digits
    for k in (10, 11, 12, 25, 99, 100, 101, 130):
        run.add(" ".join("+<%d>+ pass:q[*%d*]" % (i, i) for i in range(k)), al=n, rend="html")
    for t in gen.many(r, gen.MANY["C15"], c.size(130, 260), c.size(5, 60)):
        run.add(t, al=n, rend=r.choice(["sym", "html"]))
    for t in gen.sweep(r, gen.SLOTS["C15"], c.size(.1, 1), ["\n"]):
        run.add(t, al=n, attrs=FULLATTRS if r.random() < .3 else (), rend=r.choice(["sym", "html"]))
    run.run()
    return "every passthrough form x contents x contexts, several per text, nested, escaped, under several substitution lists"

def c21(c):
    run, r = Inline(c), c.rng
    rep = 'subs="replacements"'
    crep = 'subs="c,r"'
    n = 'subs="normal"'
    for s in gen.product_texts(["a", " ", "-", "\n", "\\", "."], c.size(5, 6), 2):
        if "--" in s or "..." in s:
            run.add(s, al=rep, rend="sym")
    for s in gen.product_texts(["a", "1", "'", "\\", " ", "é", "`"], c.size(4, 5), 2):
        if "'" in s:
            run.add(s, al=rep, rend="sym")
    for s in gen.product_texts(["-", "=", "<", ">", "\\", "a", " "], c.size(4, 5), 2):
        if "<" in s or ">" in s:
            run.add(s, al=crep, rend="html")
    for s in gen.product_texts(["a", " ", "+", "\n", " +\n"], c.size(5, 6), 2):
        if "+" in s and "\n" in s:
            run.add(s, al='subs="post_replacements"', rend="sym")
            run.add(s, al='%hardbreaks,subs="post_replacements"', rend="sym")
    lines = ["", "a", "a +", "+", " +", "a+", "a  +", "a +b", "a + ", "b\u2003+", "+ +"]
    for combo in itertools.product(lines, repeat=3):
        if r.random() < c.size(.5, 1):
            s = "\n".join(combo)
            opt = r.choice(["", "%hardbreaks,", "options=hardbreaks,", "%x%hardbreaks,"])
            run.add(s, al=opt + r.choice(['subs="post_replacements"', n]), rend=r.choice(["html", "sym"]),
                    attrs=r.choice([(), (("hardbreaks-option", True),), (("hardbreaks-option", False),), (("hardbreaks-option", "v"),)]))
    ctx = ["a", "1", " ", "\n", "", "é", ".", "(", ")", "&", ";", "\\", "-", "'", "_", "日", "\u00a0", "٣", "𝒜"]
    toks = ["(C)", "(R)", "(TM)", "--", "...", "`'", "'", "->", "=>", "<-", "<=", "&#167;", "&copy;", "&sup2;", "&frac14;", "&#x2014;",
            "&#12;", "&#1;", "&#1234567;", "&#x1;", "&#x123456;", "&a;", "&ab", "&ab123;", "& copy;", "(c)", "(TM", "(CM)", "....", "---", "----x",
            "&#X41;", "&#xAF;", "&#xaf;", "&Eacute;", "&#٣٣;"]
    # character references of every length
    toks += ["&#%s;" % "1234567890"[:k] for k in range(0, 9)] + ["&#x%s;" % "1f60AbC9"[:k] for k in range(0, 9)]
    toks += ["&%s%s;" % ("abcdefghijklmnopqrstuvwxyz"[:k], "1234"[:d]) for k in (0, 1, 2, 3, 8, 20, 26) for d in range(0, 5)]
    for t in toks:
        for b in ctx:
            for a in ctx:
                for esc in ("", "\\"):
                    if r.random() < c.size(.25, 1):
                        run.add(b + esc + t + a, al=r.choice([crep, n]), rend=r.choice(["html", "sym"]))
    for _ in range(c.size(1200, 30000)):
        t = gen.sentence(r, [gen.REPL, gen.REPL, gen.WORDS, gen.SPACES, gen.PUNCT, gen.SPECIALS, gen.UNI], 2, 12)
        run.add(t, wrap=r.choice(list(WRAPS)), al=None if r.random() < .4 else r.choice([n, crep, rep, 'subs="c,r,p"']),
                rend=r.choice(["html", "sym"]), attrs=r.choice([(), (), (("hardbreaks-option", True),)]))
    for t in gen.many(r, gen.MANY["C21"], c.size(130, 260), c.size(5, 60)):
        run.add(t, al=r.choice([n, crep, 'subs="c,r,p"']), rend=r.choice(["sym", "html"]))
    for t in gen.sweep(r, gen.SLOTS["C21"], c.size(.1, 1), ["\n"]):
        run.add(t, al=r.choice([n, crep, 'subs="c,r,p"']), rend=r.choice(["sym", "html"]))
    run.cases = [k if k[1] in BLOCKS else (k[0], k[1], None, k[3], k[4]) for k in run.cases]
    run.run()
    return "all small texts over each replacement's alphabet, every replacement in every small context, random texts, hard breaks on all line shapes"

def c22(c):
    run, r = Inline(c), c.rng
    n = 'subs="normal"'
    pools = [gen.MARKS, gen.MACRO, gen.REPL, gen.SPECIALS, gen.AL, gen.WORDS, gen.SPACES, gen.PUNCT, gen.REFS, gen.PASS]
    for _ in range(c.size(4500, 80000)):
        t = gen.sentence(r, pools, 2, 12)
        w = r.choice(["listing", "listing", "para", "btitle", "stitle", "htitle", "attrval", "literal", "pass"])
        run.add(t, wrap=w, al=(n if r.random() < .9 else None) if w in BLOCKS else None, attrs=FULLATTRS, rend="sym")
    # every construct alone and nested in every construct
    shells = ["%s", "*%s*", "__%s__", "[.r]#%s#", "`%s`", "^%s^", "~%s~", "\"`%s`\"", "'`%s`'", "link:u[%s]", "http://x.y[%s]", "image:p.png[%s]",
              "icon:i[alt=%s]", "mailto:m@n[%s]", "[[i,%s]]", "anchor:i[%s]", "+%s+", "pass:q[%s]", "pass:n[%s]", "%s +\n%s", "a %s -- %s b"]
    for a in shells:
        for b in shells:
            for leaf in ["x", "(C)", "&", "a'b", "x@y.zz"]:
                if r.random() < c.size(.6, 1):
                    run.add(a.replace("%s", b.replace("%s", leaf)), al=n, attrs=FULLATTRS, rend="sym")
    run.run()
    return "random texts over all constructs and every construct nested in every construct, all rendered through a recording renderer"

def c23(c):
    run, r = Inline(c), c.rng
    n = 'subs="normal"'
    m = 'subs="macros"'
    attrsets = [(), (), (("hide-uri-scheme", True),), (("imagesdir", "img"),), (("imagesdir", "http://h/d/"), ("icons", "font")),
                (("icons", True), ("iconsdir", "ic")), (("icons", "image"), ("icontype", "svg")), (("x", "vx"),), (("imagesdir", "/abs"),)]
    targets = ["u", "u.html", "a/b", "../a", "./a", "/a", "a b", "http://h/p", "é", "x_y-z.png", "#f", "data:x", "a:b", "{x}", "..", "p.tar.gz", ".hid",
               "a&b", "x//y", "a/../b", "C:/x", "q.", "d/", "a.b/c"]
    lists = ["", "t", "t u", "t,20", "t,20,30", "alt=A B", "t,role=r", "role=r s", "id=i", "#i", ".r", "%nofollow", "window=_blank", "t^", "^", "t,window=w,opts=nofollow",
             "\"q, r\",role=z", "t\\]u", "title=T", "width=1,height=2", "link=self", "link=http://z", "link=http://z,window=_blank", "float=left", "size=2x", "2x", "flip=v", "rotate=9",
             "t=u", "a=b,c", "'s'", "t,s j,b d", "t,,b", "a,b,c,d", "\"t=\"", "t\nu", "opts=\"nofollow,noopener\",window=_self", "title=\"a\\\"b\"", "alt=", "=", ",", "t ,x", "opts=noopener,window=q^",
             "\"t\\\"u\",x=y", "t&lt;", "{x}", "role=\"a b\""]
    heads = ["image:", "icon:", "link:", "mailto:", "anchor:", "http://", "https://", "link:http://", "irc://", "xhttp://", "image::", "\\image:", "\\link:", "\\http://",
             "\\mailto:", "\\anchor:", "link:\\http://", "Image:", "file://", "ftp://", "ftps://"]
    ctx = [("", ""), (" ", " "), ("a", "b"), ("(", ")"), ("\"", "\""), ("'", "'"), ("<", ">"), ("\n", "\n"), (";", ";"), (">", "<"), ("[", "]"), ("x ", "."), (":", ":"), ("é", "é"), ("\t", "\t"), ("*", "*")]
    combos = list(itertools.product(heads, targets, lists))
    r.shuffle(combos)
    for h, t, l in combos[:c.size(3000, 20000)]:
        b, a = r.choice(ctx)
        run.add(b + h + t + "[" + l + "]" + a, wrap=r.choice(["listing", "listing", "para"]), al=r.choice([n, m]), attrs=r.choice(attrsets), rend=r.choice(["html", "sym"]))
    # bare URLs
    tails = ["", ".", ",", ";", ":", "!", "?", ")", "):", ");", "),", ".)", "]", "[", "&gt;", ">", "&", "&amp;x", "/", "\"", "'", "*", "_", "=", "#f", "?q=1&r=2", "(x)", "(x);", "&lt;", "<", "^", "~", " x", "\n", "é", "\\", "``"]
    for b, _ in ctx + [("\\", ""), ("<\\", ""), ("\\<", ""), ("link:", ""), ("&lt;", ""), ("&gt;", ""), ("=", "")]:
        for sch in ["http://", "https://", "irc://", "mailto://", "Http://", "http:/", "ftp://"]:
            for h in ["", "h", "h.i/j", "h,", "é"]:
                for t in tails:
                    if r.random() < c.size(.08, .8):
                        run.add(b + sch + h + t, wrap=r.choice(["listing", "para"]), al=r.choice([n, m]), attrs=r.choice(attrsets), rend=r.choice(["html", "sym"]))
    # e-mail addresses and anchors
    for loc in ["a", "a.b", "a+b", "a%b", "a&b", "é", "1", "a-", "-a", "a_b", ".a", "a..b"]:
        for dom in ["b.cc", "b.c", "b-c.dd", "b.c.ddddd", "b.cccccc", "1.cc", "b.c1", "é.cc", "b_c.dd", "b..cc", "b.CC", "b.cc.", "b.cc1", "b.ccé", "-b.cc"]:
            for b in ["", " ", ":", "/", ">", "\\", "<", "(", "a", "é "]:
                if r.random() < c.size(.25, 1):
                    run.add(b + loc + "@" + dom + r.choice(["", " ", ".", ">", "x", "/y"]), al=r.choice([n, m]), rend=r.choice(["html", "sym"]))
    for i in ["i", "_i", ":i", "1", "i.j", "i-j", "é", "i j", "", "-i", "i:j", "日1"]:
        for t in [None, "", "t", " t", "t]u", "t\\]u", "t,u", "<t>"]:
            for b, a in r.sample(ctx, c.size(3, 12)):
                rend = r.choice(["html", "sym"])
                run.add(b + "[[" + i + ("" if t is None else "," + t) + "]]" + a, al=n, rend=rend)
                run.add(b + "anchor:" + i + "[" + (t or "") + "]" + a, al=n, rend=rend)
                run.add("\\[[" + i + "]]" + a, al=n, rend=rend)
    for _ in range(c.size(1500, 40000)):
        t = gen.sentence(r, [gen.MACRO, gen.MACRO, gen.WORDS, gen.SPACES, gen.PUNCT, gen.SPECIALS, gen.MARKS, gen.REFS], 2, 8)
        run.add(t, wrap=r.choice(["listing", "para", "btitle", "stitle"]), al=None, attrs=r.choice(attrsets), rend=r.choice(["html", "sym"]))
    # every character at every place of a macro
    for t in gen.many(r, gen.MANY["C23"], c.size(130, 260), c.size(5, 60)):
        run.add(t, al=r.choice([n, m]), rend=r.choice(["sym", "html"]))
    for t in gen.sweep(r, gen.SLOTS["C23"], c.size(.1, 1), ["\n"]):
        run.add(t, al=r.choice([n, m]), attrs=r.choice(attrsets) if r.random() < .3 else (), rend=r.choice(["html", "html", "html", "sym"]))
    for _ in range(c.size(2200, 40000)):
        b, a = r.choice(ctx)
        t = gen.macro(r)
        if r.random() < .15:
            t += r.choice(["", " ", ";", "\n"]) + gen.macro(r)
        run.add(b + t + a, wrap=r.choice(["listing", "listing", "para", "btitle"]), al=r.choice([n, n, m]), attrs=gen.media_attrs(r), rend=r.choice(["html", "html", "sym"]))
    run.cases = [(s, w, (al or n) if w in ("listing",) else al if w == "para" else None, at, rd) for s, w, al, at, rd in run.cases]
    run.run()
    return "every macro form x targets x attribute lists x contexts x relevant attributes; bare URLs x prefixes x tails; e-mail and anchor forms; random mixes"

CHECKS = {"C13": c13, "C14": c14, "C15": c15, "C16": c16, "C21": c21, "C22": c22, "C23": c23}
