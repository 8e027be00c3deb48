"""Text generators for the inline checks."""
import itertools, re

DIRECTIVE = re.compile(r'^(include::|if)', re.M)     # lines for the preprocessor

def product_texts(tokens, maxlen, minlen=1):
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(tokens, repeat=n):
            yield "".join(t)

def joined(rng, frags, lo, hi):
    return "".join(rng.choice(frags) for _ in range(rng.randint(lo, hi)))

WORDS = ["a", "b", "foo", "Bar", "x1", "é", "日", "_u", "K9"]
SPACES = [" ", " ", " ", "\n", "  ", "\t", "\u00a0", "\u2003"]
PUNCT = [".", ",", ";", ":", "!", "?", "(", ")", "{", "}", "/", "-", "'", "\"", "=", "|", "%", "@", "$"]
SPECIALS = ["<", ">", "&", "&lt;", "&amp;", "&#167;", "&copy;", "<b>", "</b>", "&&", "<<", ">>", "<!--"]
UNI = ["ß", "Σ", "\u0301", "\u200d", "😀", "𝒜", "½", "٣", "—", "“", "\u200b", "…", "Ⅷ", "ª"]
MORE = list("ʰʼnǄǆẞKﬁΐ७3①Ⓐ‿⁀ˆ∑々ー가א𐐀𝟘〇ⅰÅåŁł²µ€×«·") + ["\u0903", "\u20dd", "\u200c", "\u200f", "\u2060", "\u180e", "\u1680", "\u2009",
        "\u202f", "\u205f", "\u2028", "\u2029", "\u0085", "\u00ad", "\ufe0f", "\u1f88", "\U000e0041", "\ue000", "\ufffd", "\ufeff", "\x0b", "\x0c"]
UNI = UNI + MORE
MARKS = ["*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "\"`", "`\"", "'`", "`'"]
AL = ["[.r]", "[.r.s]", "[#i]", "[#i.r]", "[role=q]", "[b,id=z]", "[x-]", "[.r x-]", "[]", "[ ]", "[%o]",
      "[.a.b#c]", "[role=\"m n\"]"]
PASS = ["+", "++", "+++", "$$", "pass:[", "pass:q[", "pass:c,a[", "pass:n[", "pass:v[", "pass:z[", "]", "\\]",
        "\\+", "\\++", "\\\\++", "\\pass:[", "pass:", "[x-]", "`"]
REPL = ["(C)", "(R)", "(TM)", "--", " -- ", "...", "->", "=>", "<-", "<=", "'", "`'", "&#167;", "&copy;",
        "\\(C)", "\\--", "\\...", "\\->", "\\=>", "\\<-", "\\'", "\\&#167;", "&sup2;", "&#x2014;", "&x;", "(c)", "(tm)",
        " +\n", "+\n", "\n", " \n"]
MACRO = ["http://x.y", "https://a.b/c?d=e&f=g", "http://x.y[t]", "http://x.y[]", "link:u[t]", "link:u[]",
         "link:u_v/w.html[T T^]", "mailto:a@b.cc[n]", "mailto:a@b.cc[n,s j,b]", "a@b.cc", "a.b+c@d.e-f.org",
         "image:p.png[]", "image:p.png[alt,10,20]", "image:d/p_q-r.png[title=t]", "icon:s[]", "icon:s[2x,role=r]",
         "[[id]]", "[[id,text]]", "anchor:k[]", "anchor:k[t]", "<http://x.y>", "\\http://x.y", "\\link:u[t]",
         "\\image:p.png[]", "\\a@b.cc", "\\[[id]]", "irc://h", "ftp://f", "file:///g", "(http://x.y)", "\"http://x.y\"",
         "http://x.y.", "http://x.y;", "http://x.y):", "link:http://x.y[t]", "http://x.y[t,role=r]",
         "http://x.y[t,window=_blank]", "http://x.y[t^]", "link:u[role=q,id=i]", "link:u[a=b]", "link:u[t\\]u]",
         "image:http://h/p.png[]", "image:/p.png[link=self]", "image:p.png[link=http://q,window=w,opts=nofollow]",
         "image:p.png[a,role=\"r s\",float=left]", "icon:s[size=3x,title=t,link=u]", "icon:s[flip=h]", "icon:s[rotate=90]"]
REFS = ["{x}", "{y}", "{sp}", "{empty}", "{plus}", "{nope}", "\\{x}", "\\{nope}", "{X}", "{x", "{set:a}", "{un}", "{on}"]

ATTRS = [("x", "vx"), ("y", "<v>&"), ("on", True), ("un", False)]

def nearby(rng, frags, ctx=None):
    """A fragment in a context: word, space or punctuation on either side."""
    ctx = ctx or (WORDS + SPACES + PUNCT + ["", "", ""])
    return rng.choice(ctx) + rng.choice(frags) + rng.choice(ctx)

def sentence(rng, pools, lo=1, hi=10):
    out = []
    for _ in range(rng.randint(lo, hi)):
        out.append(rng.choice(rng.choice(pools)))
    return "".join(out)

# ---- whole macros, composed at random -------------------------------------
ASCII = [chr(i) for i in range(32, 127)]
INWORD = ["a", "b", "T", "é", "1", "x y", "u.v", "/", ".", "..", "-", "_", "~", "%", "#", "?", "&", "=", ":", ";", "@", "!", "$", "+", "*", "'", "|", "{x}", "{", "}",
          "(", ")", "日", "😀", "<", ">", "\\", "^", " ", "\"", "\u00a0"]
NAMES = ["alt", "title", "width", "height", "size", "flip", "rotate", "link", "window", "role", "roles", "id", "opts", "options", "float", "align", "subject",
         "body", "1", "2", "3", "class", "rel", "target", "icon", "fallback", "format"]
SCHEMES = ["http://", "https://", "file://", "ftp://", "irc://", "link:http://", "link:https://", "mailto:", "link:", "image:", "icon:", "anchor:", "link:mailto:", "ftps://"]

from slots import SLOTS, MANY, sweep, many  # noqa: F401,E402

def frag(r, lo, hi, pool=None):
    return "".join(r.choice(pool or INWORD) for _ in range(r.randint(lo, hi)))

def attr_item(r):
    x = r.random()
    v = frag(r, 0, 3) if x < .6 else r.choice(["_blank", "nofollow", "noopener", "nofollow,noopener", "2x", "r s", "self", "90", "h", "T^", "", "t]", "t\\]u", "http://z", "{x}"])
    q = r.choice(["", "", "\"", "\"", "'"])
    v = q + v + q
    if r.random() < .45:
        return r.choice(["", "", "", " "]) + v
    return r.choice(["", "", " "]) + r.choice(NAMES) + r.choice(["=", "=", "=", " = "]) + v

def attr_items(r, lo=0, hi=4):
    x = r.random()
    if x < .15:
        return r.choice(["", "^", "t^", ".r", "#i", "%nofollow", "#i.r.s%o", "t u", "t,"])
    return ",".join(attr_item(r) for _ in range(r.randint(lo, hi)))

def macro(r):
    """A macro or URL with a random target and attribute list."""
    h = r.choice(["", "", "", "", "\\"]) + r.choice(SCHEMES)
    x = r.random()
    if h.endswith("mailto:") and x < .7:
        return h + r.choice(["a@b.cc", "a", "a.b+c@d", frag(r, 0, 3)]) + "[" + ",".join(
            r.choice(["", "", " "]) + r.choice(["", "\"", ""]) + frag(r, 0, 4, ASCII if r.random() < .7 else INWORD) for _ in range(r.randint(0, 4))) + "]"
    t = r.choice(["", "h", "p.png", "a/b_c-d.e"]) if x < .4 else frag(r, 0, 4)
    if x > .85:
        return h + t
    return h + t + "[" + attr_items(r) + "]"

def media_attrs(r):
    out = [("x", "vx")]
    for n, vs in (("hide-uri-scheme", [True, False, "v"]), ("icons", [True, "font", "image", False, ""]), ("iconsdir", ["ic", "/i", "http://h/i", ""]),
                  ("imagesdir", ["img", "http://h/d/", "/abs", "../u", ""]), ("icontype", ["svg", "", "gif"])):
        if r.random() < .35:
            out.append((n, r.choice(vs)))
    return tuple(out)

def times(r, hi=40):
    """How often something is repeated: mostly a few times, now and then many."""
    return min(hi, int(2 ** (1 + r.random() * 5)))

def echo(r, s, limit=600, lines=True):
    """Repeat a part of a text several times."""
    if not s:
        return s
    if lines and "\n" in s and r.random() < .7:
        l = s.split("\n")
        a = r.randrange(len(l))
        b = min(len(l), a + r.choice([1, 1, 2, 2, 3, 4]))
        k = times(r)
        sep = r.choice([[], [], [""]])
        out = "\n".join(l[:a] + (l[a:b] + sep) * k + l[b:])
    else:
        a = r.randrange(len(s))
        b = min(len(s), a + r.choice([1, 1, 2, 3, 4, 6, 10, len(s)]))
        out = s[:a] + s[a:b] * times(r) + s[b:]
    return out if len(out) <= limit else s

ITEM = re.compile(r"\w+|[ \t]+|.", re.S)
def splice(r, a, b):
    """A new text from two."""
    x = r.random()
    if x < .5 and ("\n" in a or "\n" in b):
        p, q = a.split("\n"), b.split("\n")
    else:
        p, q = ITEM.findall(a), ITEM.findall(b)
    j = "\n" if p and p[0] != a and "\n" in a and x < .5 or x < .5 and "\n" in b else ""
    if j == "" and x < .5:
        p, q = ITEM.findall(a), ITEM.findall(b)
    y = r.random()
    i, k = r.randint(0, len(p)), r.randint(0, len(q))
    if y < .3:
        out = p[:i] + q[k:]
    elif y < .6:
        out = p[:i] + q[k:k + r.choice([1, 1, 2, 3])] + p[i:]
    elif y < .75:
        out = p[:i] + q[k:k + r.choice([1, 1, 2, 3])] + p[i + r.choice([1, 1, 2]):]
    elif y < .85:
        out = p[:i] + p[i + r.choice([1, 1, 2, 3]):]
    elif y < .95 and len(p) > 1:
        i, k = r.randrange(len(p)), r.randrange(len(p))
        out = list(p)
        out[i], out[k] = out[k], out[i]
    else:
        out = p + q
    return j.join(out)
