"""Places where a character may matter: every one meets every ASCII character and one of every Unicode class."""
import json, os

import words

def _classes():
    """Characters of a class (alphabetic, digit, space, ...) and UTF-8 length, for each there is."""
    t = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "chars.json")))
    sig = {}
    for ch in t["utf8"]:
        if ord(ch) > 127 and ch not in "\ue100\ue101\ue102":
            k = tuple(n for n in ("alphabetic", "letter", "nd", "number", "space", "word", "cased", "caseignorable") if ch in t[n])
            sig.setdefault(k + (len(t["utf8"][ch]), len(t["lower"].get(ch, ""))), []).append(ch)
    return list(sig.values())
CLASSES = _classes()
ASCII = [chr(i) for i in range(32, 127)]

SLOTS = {
    "C04": ["----\na\n----%s\nb\n----\nc", "----%s\na\n----\nb", "%s----\na\n----\nb", "====\na\n====%s\nb\n====", "%s====\na\n====", "%s%s%s%s\na\n%s%s%s%s\nb",
            "%s%s\na\n%s%s\nb", "----\n%s----\n----\n", "----\n%s\n----\na", "a\n----%s\nb\n----", "--%s\na\n--\nb", "%s%s%s%s%s\na\n%s%s%s%s\n%s%s%s%s%s\nb"],
    "C05": ["==%sA\nb", "%s== A\nb", "=%s= A", "== %sA\n=== B", "== A%s\nb", "== A\n%s=== B\nc", "[discrete%s]\n== A\nb", "[%sdiscrete]\n== A\nb"],
    "C07": ["== a%sb", "== %sa", "== a%s", "== a%s%sb\n== a%sb", "[[%si]]\n== a", "[[i%s]]\n== a", "[#a%sb]\n== c\n== a%sb", ":idseparator: %s\n\n== a b c", ":idprefix: %s\n\n== a",
            "[[i,x%sy]]\na\n\n== x%sy", "[reftext=x%sy]\n== a"],
    "C09": ["{%sa}", "{a%s}", "{a%sb}", "%s{a}", "{a}%s", "{%s}", "{a%s", "%sa}"],
    "C10": ["include::a%sb[]", "include::%sa[]", "include::a%s[]", "include%s::a[]", "include:%s:a[]", "include::%s[]", "include::a[%s]", "include::a[x%sy,z=u%sv]", "%sinclude::a[]",
            "include::a[]%s", "include::{f%s}[]", ":f%s: b\ninclude::{f}[]", ":f: b%s\ninclude::{f}[]", ":%sf: b\ninclude::{f}[]", "x%s\ninclude::a[]", "include::b%sa[]\n%s"],
    "C15": ["+%sa+", "+a%s+", "+a%sb+ c", "a%s+b+", "+b+%s", "pass:%s[x]", "pass:c%s[x]", "pass:[x%sy]", "++a%sb++", "+++a%sb+++", "$$a%sb$$", "`+a%sb+`", "[%s]+a+", "[x%s]+a+ +b+",
            "%s+++a+++", "[x-%s]+a+", "[a%sx-]++b++", "%s++a++", "++a++%s", "[.r]%s+a+", "[x-]`a`%s", "%s[x-]`a`", "pass:[a\\]%sb\\]c]", "+<a>%s<b>%s<c>+"],
    "C16": ["%s*a*", "*a*%s", "*%sa*", "*a%s*", "**a%sb**", "[%s]*a*", "[.%s]_a_", "%s[.r]_a_", "`a`%s", "%s`a`", "#a#%s", "%s#a#", "^a%sb^", "~a%sb~", "^%s^", "%s^a^", "\"`a`\"%s", "%s\"`a`\"",
            "'`%sa`'", "'`a%s`'", "[.r%ss]#a#", "[#i%sj]#a#", "\\%s*a*", "_a%s_ _b_", "__a%s__b", "a%s*b*%sc*d*%s"],
    "C17": ["[a%sb]\nx", "[%sa]\nx", "[a%s]\nx", "[a=%sb]\nx", "[a=b%s]\nx", "[a%s=b]\nx", "[%sa=b]\nx", "[a=\"x%sy\"]\nx", "[a='x%sy']\nx", "[.r%ss]\nx", "[#i%sj]\nx", "[s%o%sp]\nx",
            "[role=\"r%ss%st\"]\nx", "[opts=\"u%sv\"]\nx", "[a,%s,b]\nx", "[a%s,b]\nx", "[\"a\"%s,b]\nx", "image::p[a%sb,c=d%se]", "[a=\"b\"%sc]\nx", "[s.r%s#i%s%o%s]\nx"],
    "C18": ["%s= T\nA B", "=%sT\nA B", "= T%s\nA B", "= %sT\n\nx", "= T\n%s\nx", "= T\n%s:a: b\n\nx", "= T\n//%sc\nA B\n\nx", "= T\nA B\n%s\nx", "= T\nA B\n%sv1\n\nx", ":a:%sb\n= T\n\nx",
            "%s\n= T\n\nx", "= T\n:a%s: b\n\nx", "= T\nA B\nv1\n%s\nx", "= T\n\n%s:a: b"],
    "C19": ["= T\nA%sB\n", "= T\nA%sB C <d@e>\n", "= T\n%sA B\n", "= T\nA B%s\n", "= T\nA B <d%se>\n", "= T\nA B%s<d@e>\n", "= T\nA B <d@e>%s\n", "= T\nA B;%sC D\n", "= T\nA B%s; C D\n",
            "= T\n:author: A%sB C\n", "= T\n{a}%s\n", "= T\nA\nv%s1, 2: r\n", "= T\nA\nv1%s, 2: r\n", "= T\nA\nv1,%s2: r\n", "= T\nA\nv1, 2%s: r\n", "= T\nA\nv1, 2:%sr\n",
            "= T\nA\n%s1\n", "= T\nA\nv1%s\n", "= T\nA\nx%sy\n", "= T\nA\n%s, 2\n", "= T\nA%sB %sC D\n"],
    "C20": ["%sa", "a%sb", "a%s", "a/%s", "a/%s/b", "..%s/a", "%s../a", "%s:/a", "%s://a", "a%sb://c", "a%s://c", "%sa:b", "/%sa", "./%sa", "a/.%s/..", "http:%s//a", "%s", "a/%sb/%sc"],
    "C21": ["a%s--b", "a--%sb", "a -- %sb", "a%s-- b", "a --%s", "a%s'b", "a'%sb", "%s'b", "a...%s", "%s...", "&%s;", "&a%s;", "&#12%s;", "&#x1%s;", "(%s)", "(C%s)", "a%s->b", "a->%sb",
            "a +%s\nb", "a%s+\nb", "\\%s--", "a`'%sb", "a -- b%s-- c -- d", "it%s's o'%sx"],
    "C23": ["mailto:a@b.cc[t,x%sy,z%sw]", "mailto:a%sb@c.dd[t]", "link:a%sb[t]", "link:a[x%sy]", "link:a[t,role=x%sy]", "image:p%sq.png[]", "image:p.png[x%sy]",
            "image:p.png[a,link=u%sv]", "icon:i%sj[]", "http://h/a%sb c", "http://h/a%sb[t]", "a%sb@c.dd", "a@b%sc.dd", "[[i%sj]]k", "[[i,a%sb]]k", "%shttp://h", "http://h%s",
            "http://h[t%s]", "http://h[t%su%sv,role=r]", "http://h[%st]", "http://h[t,role=x%sy]", "http://h[t,window=x%sy]", "link:a[%s]", "http://h[%s]", "mailto:a@b[%s]", "[[i,%s]]", "anchor:i[%s]", "image:a[%s]", "icon:a[%s]", "link:a[%st]", "link:a[t%s]", "link:a[t%su%sv,role=r]", "[[%si]]k", "anchor:i%sj[]", "anchor:%si[]k", "anchor:i[a%sb]", "mailto:a@b.cc[t%s]", "<http://h%s>",
            "link:a[\"t%su\",role=\"r%ss\"]", "image:%sp.png[]", "icon:%si[]", "image:p%s[a]", "link:a%s[]", "link:%sa[]", "http://h?a%sb%sc[]", "http%s://h[t]", "http:%s//h", "image:p.png[title=x%sy]",
            "icon:i[size=x%sy]", "image:p.png[a,1%s2,3%s4]", "link:a[t,window=x%sy]", "%slink:a[t]", "link%s:a[t]", "%simage:a[t]", "%smailto:a@b[t]", "%s[[i]]", "%sanchor:i[]", "%sa@b.cc", "a@b.cc%s"],
    "C24": ["a\n%s", "a\n%s\nb", "a\n%s%s%s%s", "a\n%sb\nc", "a\n[%s]\nb", "a\n[x]%s\nb", "%sa\n b\n  c", " %sa\n%sb", "a%s\nb", "%s%s%s", "%s%s%s\na", "%s %s %s", "a\n+%s\nb", "a\n//%sb\nc",
            "%s//b\nc", "'''%s", "<<<%s", "%s'''", "[%snormal]\n a", "  a\n%s b\n", "a\n--%s\nb\n--", "a\n[%s\nb", "%s", "\t%sa\n\tb"],
    "C25": [".%st\na", ".t%s\na", "[[%si]]\na", "[[i%s]]\na", "[[i,%sr]]\na", "[[i%sr]]\na", "[%s]\na", "[a]%s\nb", "[[i]]%s\na", ".t\n%s\na", "%s.t\na", "%s[[i]]\na", "%s[a]\nb", "[[i,r%s]]\na",
            "[[i]%s]\na", "[%s[i]]\na", "[[i,%s]]\na", "[[%s]]\na", ".%s\na", "[[i%sj]]\n.t%su\n[a%sb]\nc"],
    "C26": ["image::%sa[b]", "image::a%s[b]", "image:%s:a[b]", "image%s::a[]", "image::a[]%s", "%simage::a[]", "image::a%sb[c]", "image::a[b%s]", "image::a[%sb]", "video::a%sb[c%sd]", "audio::%s[]", "image::a[b,c=%sd]",
            "x\n%simage::a[]", "image::a[b%s]%s"],
    "C27": [":%sa: b", ":a%sb: c", ":a%s: c", ":a:%sb", ":a: b%s", ":a: b \\%s\nc", ":a: b%s\\\nc", ":a: b \\\n%sc", ":!%sa:", ":a%s!:", ":a!%s:", ":%s: b", "%s:a: b", "x\n\n:a: b%s", "x\n\n:a:%sb", ":a: %sb",
            ":a: b +%s\\\nc", ":a: b + \\\n%sc + \\\n%sd", ":a: b \\\nc%s\\\nd", "x\n\n:%sa: b", "x\n\n:a%s:", ":a:%s", ":!a:%s"],
}

def sweep(r, templates, more=.12, extra=()):
    """Every template with every character in its places, and now and then with two of them."""
    for ch in ASCII + ["\t"] + list(extra) + [r.choice(k) for k in CLASSES]:
        for t in templates:
            yield t.replace("%s", ch)
            if r.random() < more:
                yield t.replace("%s", r.choice([ch * 2, ch * 2, ch * 3, ch + r.choice(ASCII), r.choice(ASCII) + ch, ch + " " + ch]))
    for w in words.NEW:
        for t in templates:
            yield t.replace("%s", w)
            yield t.replace("%s", r.choice(words.variants(r, w)))
            k = t.count("%s")
            if k > 1:
                yield t.replace("%s", w, r.randint(1, k - 1)).replace("%s", r.choice(["", "a", words.pick(r)]))
    for t in templates:
        for _ in range(3):
            yield t.replace("%s", words.pick(r))

# things that may come many times, or be long: (before, what is repeated, after); %d is the number of the repetition
MANY = {
    "C03": [("", "a%d\n", "\nb"), ("a\n", "\n", "b"), ("", "// c\n", "a"), ("a", " ", "\nb"), ("", "== A\n\n", "a"), ("", "a\n\n", ""), ("", "\n", "a"), ("= T\n", ":a%d: b\n", "\nc")],
    "C04": [("-----\na\n----", "-", "\nb\n-----"), ("====", "=", "\na\n====="), ("----\n", "a%d\n", "----\nb"), ("====\n", "a\n\n", "====\nb"), ("----\n", "---\n", "----\nb"), ("....", ".", "\na\n........"),
            ("----\na\n----", " ", "\nb"), ("____\n", "--\na\n--\n", "____\nb"), ("++++\n", "\n", "++++\nb"), ("", "----\n", "a"), ("", "====\n", "a")],
    "C05": [("== ", "a ", "\nb"), ("==", " ", "A\nb"), ("", "=", " A"), ("", "== A%d\n", "b"), ("== A\n", "=== B\n==== C\n", "d"), ("x\n\n", "y\n\n", "== A\nb"), ("[discrete]\n", "[discrete]\n", "== A"), ("== a", "b", "\nc")],
    "C06": [("", "== A\n\n", ""), ("== A\n\n", "=== B\n\n", "== C"), ("", "[appendix]\n== P\n\n", "=== Q"), ("== A\n=== B\n", "==== C\n\n", ""), ("", "[discrete]\n== A\n\n", "== B")],
    "C07": [("== a", "b", "\n"), ("== a", " b", "\n"), ("== a", "-", "b\n"), ("== a", ". ", "b\n"), ("== ", "&amp; ", "a"), ("", "== A\n\n", "[[_a-3]]\nx"), ("[[i", "j", "]]\n== a\n"), ("", "[#i%d]\n== A\n\n", ""), ("== ", "<b> ", "a")],
    "C09": [("x ", "{a}", " y"), ("x ", "{a} ", "{b}"), ("x {a", "a", "} y"), (":a0: v\n", ":a%d: {a}x\n:a: {a%d}\n", "\n{a}"), ("x \\", "\\", "{a}"), ("x ", "{", "a}"), (":a: ", "{b}", "\n\n{a}")],
    "C13": [("[subs=\"q", ",c", "\"]\n----\n*a* <b>\n----"), ("[subs=\"", "-q,+q,", "c\"]\n----\n*a* <b>\n----"), ("[", "a,", "subs=n]\n----\n*a* <b>\n----")],
    "C15": [("x ", "+<%d>+ ", "y"), ("x ", "pass:q[*%d*]", ""), ("x +", "<", "+ y"), ("x ", "+++<u>%d+++ $$<$$ ", ""), ("x +a", "+", "b+"), ("x ", "`+<%d>+` ", ""), ("x pass:[", "\\]<", "]"), ("x ", "\\", "+a+")],
    "C16": [("x *", "a", "* y"), ("x ", "*a* ", ""), ("x ", "_a%d_ *b* ", ""), ("x *", "a ", "b* y"), ("x ", "*", "a* y"), ("x [.r", ".s%d", "]#a#"), ("x ", "`", "a`"), ("x **", "a*", "b**"), ("x ", "^a%d^~b~", ""), ("x ", "\\", "*a*"), ("x \"`", "a ", "b`\"")],
    "C17": [("[", "a%d,", "b]\nx"), ("[", "a%d=b,", "c]\nx"), ("[s", ".r%d", "]\nx"), ("[s", "%o%d", "#i]\nx"), ("[role=\"", "r%d ", "s\"]\nx"), ("[opts=\"", "o%d,", "s\"]\nx"), ("[a=\"", "b", "\"]\nx"), ("[", "a", "=b]\nx"), ("[", "a=b,", "c]\nx"),
            ("[a=\"", "\\\"", "\"]\nx"), ("[", ",", "]\nx"), ("[a=", " ", "b]\nx"), ("[", "#i%d", "]\nx"), ("[", "x,", "a=b,c]\n----\n----"), ("[role=r,", "roles=s%d,", "x]\ny"), ("[opts=r,", "options=s%d,", "x]\ny")],
    "C18": [("", "\n", "= T\nA"), ("= T\n", "// c\n", "A B\n\nx"), ("= ", "a ", "\n\nx"), ("= T\n", ":a%d: b\n", "\nx"), ("", "// c\n", "= T\n\nx"), ("= T\n", "a%d\n", ""), ("", ":a: b%d\n", "= T\n\nx")],
    "C19": [("= T\n", "A%d B; ", "C D\n"), ("= T\nA", "b", "\n"), ("= T\nA", " B", "\n"), ("= T\nA", "_B", " C\n"), ("= T\nA <", "a", ">\n"), ("= T\nA B <", "a@", "b>\n"), ("= T\nA\nv", "1", ", 2: r\n"), ("= T\nA\n", "v", "1, 2\n"), ("= T\nA\nv1, 2", ", 3", ": r\n"),
            ("= T\nA\nv1, 2", ": r", "\n"), ("= T\nA", " ", "B\n"), ("= T\n", "A;", " B\n"), ("= T\n", "{a}", "\n"), ("= T\nA\nv1", ".2", "\n"), ("= T\n", "A B <c@d>; ", "E\n")],
    "C20": [("", "a/", "b"), ("", "../", "a"), ("a/", "b/../", "c"), ("a", "b", "/c"), ("", "./", "a"), ("a/", "/", "b"), ("/", "../", "a"), ("", "a", "://b"), ("", "a", ":b"), ("a/b/c/d/e/f/g/h/i/j/", "../", "k"), ("", " ", "a"), ("", "\\", "a")],
    "C21": [("a ", "--", " b"), ("a", "-", "b"), ("a", ".", ""), ("a ", "-- ", "b"), ("a ", "(C)", ""), ("a ", "=", "> b"), ("a ", "'", "b"), ("a", "'b", ""), ("a", " ", "+\nb"), ("a", " +\nb", ""), ("a ", "&#167; ", ""), ("a ", "\\", "(C)"), ("a ", "->", ""), ("a ", "-", "> b"), ("a ", "<", "- b"),
            ("a", " --\nb", ""), ("a ", "\\-- ", "b")],
    "C23": [("x http://h/", "a", " y"), ("x http://h/", "a/", "[t]"), ("x ", "http://h%d ", ""), ("x a@b.", "c", ""), ("x a@", "b.", "cc"), ("x ", "a", "@b.cc"), ("x link:a[", "t ", "u]"), ("x link:a[t,", "b=c,", "role=r]"), ("x link:a[t,role=\"", "r%d ", "s\"]"), ("x [[", "i", "]]y"), ("x image:", "a/", "b.png[]"),
            ("x image:", "ab-_", ".png[]"), ("x http://h", ")", ""), ("x http://h", ";", ""), ("x link:a[t", "^", "]"), ("x http://h[t", "^", "]"), ("x mailto:a@b[t", "^", "]"), ("x http://h[", "t\n", "u,role=r]"), ("x http://h[", "\\]", "b]"), ("x http://h[t,role=\"", "r%d ", "s\"]"), ("x <http://h", "/a", ">"), ("x image:a[b,", "1", "0]"), ("x mailto:a@b[t,", "s ", "u]"), ("x link:a[", "\\]", "b]"), ("x ", "[[i%d]]", ""), ("x http://h?", "a=b&", "c"), ("x link:a[t,opts=\"", "o,", "nofollow\"]"),
            ("x link:a[", "t\n", "u,role=r]"), ("x icon:a[", "1", "x]"), ("x \\", "\\", "http://h")],
    "C24": [("", "a%d\n", ""), ("  a\n", " ", "b\n"), ("", " ", "a\n b"), ("a\n", "// c\n", "b"), ("", "// c\n", ""), ("", "'", ""), ("", "- ", ""), ("", "*", ""), ("", "<", ""), ("a\n", "a%d\n", "+\nb"), ("a\n", "a%d\n", "[x]\nb"), ("a\n", "a%d\n", "--\nb"), (" a\n", "  a%d\n", "b"), ("a", " ", "\nb"), ("", "\t", "a\n\tb"),
            ("a ", "b", "\nc"), ("a\n", "  b\n", "c"), ("[source]\n", " ", "a\n   b")],
    "C25": [(".", "t", "\na"), (".", "a ", "\nb"), ("[[", "i", "]]\na"), ("[[i,", "r ", "s]]\na"), ("", "[[i%d]]\n", "a"), ("", ".t%d\n", "a"), ("", "[a%d]\n", "b"), (".t\n", "\n", "a"), ("[", "a,", "b]\nc"), ("[[i]]\n", "\n", "a"), ("", "[a%d]\nb\n", "c"), ("[[i,", ",", "r]]\na")],
    "C26": [("image::", "a", "[b]"), ("image::", "a/", "b[c]"), ("image::a[", "b%d,", "c]"), ("image::a[", "b%d=c,", "d]"), ("video", ":", "a[b]"), ("image::a[b", "]", ""), ("image::a[b]", " ", "\nc"), ("audio::a[opts=\"", "b,", "c\"]"), ("", "image::a%d[b]\n", ""), ("image::a", " ", "b[c]"), ("image::a", "[", "b]")],
    "C27": [(":a: b", " \\\n  c%d", "\n\n{a}"), (":a: b", " + \\\nc", "\n\n{a}"), (":", "a", ": b"), (":a: ", "b", "\n\n{a}"), (":a:", " ", "b"), (":a: b \\\n", " ", "c"), (":a: b ", "\\", "\nc"), (":a: b ", "+", " \\\nc"), ("x\n\n", ":a%d: b\n", "\n{a1}"), (":a", "!", ": b"), (":", "!", "a: b"), (":a: b", " ", "\\\nc"), ("", ":", "a: b")],
}

def many(r, templates, top=130, count=9):
    """Every template with its part repeated up to 12 times, and for some larger counts."""
    for pre, unit, post in templates:
        for k in list(range(13)) + r.sample(range(13, top), min(count, top - 13)) + [n for n in (16, 17, 32, 33, 64, 65) if n < top] + words.COUNTS:
            s = pre + "".join(unit.replace("%d", str(i + 1)) for i in range(k)) + post
            if k < 40 or len(s) < (1600 if k in words.COUNTS else 700):
                yield s
