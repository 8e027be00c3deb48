"""Words for the generators, taken from the source text of the code under test.

A condition on a particular character, word or number is met only by an input
that contains it.  The literals of the current sources are therefore a
dictionary for the generators: all of them now and then, and those that occur
more often than in the sources the specification was written for (literals.json; or less often) everywhere.  Only the choice of inputs depends on
this; what is right is decided by the specification alone.
"""
import collections, json, os, re

from harness import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
ROOTS = ("parser/src", "sdd/src", "asg")

TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|(?<!\w)b?r(#*)"(.*?)"\1|(?<!\w)b?"((?:[^"\\]|\\.)*)"|(?<!\w)b?'((?:[^'\\\n]|\\u\{[0-9a-fA-F]+\}|\\.))'|\b(0x[0-9a-fA-F]+|\d[\d_]*)\b''', re.S)
ESC = re.compile(r'\\(u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|\n\s*|.)', re.S)
PLAIN = {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}

def unescape(s):
    def one(m):
        h = m.group(2) or m.group(3)
        if h:
            try:
                return chr(int(h, 16))
            except (ValueError, OverflowError):
                return ""
        return "" if m.group(1)[0] == "\n" else PLAIN.get(m.group(1), m.group(1))
    return ESC.sub(one, s)

def sources():
    for root in ROOTS:
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds[:] = sorted(x for x in ds if x not in ("tests", "test", "node_modules", "target", "fixtures"))
            for f in sorted(fs):
                if f.endswith((".rs", ".js")):
                    yield os.path.join(d, f)

def literals():
    """How often each text and number occurs: {"s...": n, "n...": n}."""
    out = collections.Counter()
    for p in sources():
        try:
            src = open(p, encoding="utf-8", errors="replace").read()
            src = re.split(r"#\[cfg\(test\)\]\s*mod \w+ \{", src)[0]
        except OSError:
            continue
        for m in TOKEN.finditer(src):
            raw, st, ch, num = m.group(2), m.group(3), m.group(4), m.group(5)
            if raw is not None:
                for w in re.findall(r"[\w:./#%<>=&;@!~^'\"-]+", raw, re.A):
                    out["s" + w] += 1
                for w in re.findall(r"\d+", raw):
                    out["n" + w] += 1
                for w in re.findall(r"\\x\{([0-9a-fA-F]+)\}|\\u\{([0-9a-fA-F]+)\}", raw):
                    out["s" + chr(int(w[0] or w[1], 16) % 0x110000)] += 1
                for w in raw:
                    if not (w.isascii() and w.isalnum()):
                        out["s" + w] += 1
            elif st is not None:
                if st:
                    out["s" + unescape(st)] += 1
            elif ch is not None:
                out["s" + unescape(ch)] += 1
            elif num is not None:
                out["n%d" % int(num.replace("_", ""), 16 if num.startswith("0x") else 10)] += 1
    return out

# characters the parser uses for itself
RESERVED = set("\0\x96\x97")

def known_char():
    t = json.load(open(os.path.join(HERE, "..", "spec", "chars.json"), encoding="utf-8"))
    return set(t["utf8"]) | set(map(chr, range(128)))

def _load():
    have = literals()
    try:
        base = json.load(open(os.path.join(HERE, "literals.json"), encoding="utf-8"))
    except OSError:
        base = {}
    ok = known_char()
    def words(keys):
        return [k[1:] for k in keys if k[0] == "s" and 0 < len(k) <= 60 and k[1:] and all(c in ok for c in k[1:]) and not set(k) & RESERVED]
    def numbers(keys):
        return sorted(set(int(k[1:]) for k in keys if k[0] == "n" and len(k) < 7))
    keys = sorted(have)
    novel = [k for k in sorted(set(keys) | set(base)) if have.get(k, 0) != base.get(k, 0)]
    novel.sort(key=lambda k: (k in base, len(k)))
    return words(keys), numbers(keys), words(novel)[:40], [n for n in numbers(novel) if 1 < n <= 5000][:12]

WORDS, NUMBERS, NEW, NEWNUM = _load()
COUNTS = sorted(set(k for n in NEWNUM for k in (n - 1, n, n + 1) if 1 < k <= 520))

def variants(r, w):
    """A word and what is nearly it."""
    out = [w, w * 2, w[:-1], w[1:], w + r.choice("ax1-._ "), r.choice("ax1-._ ") + w, w.upper(), w.title(), " " + w, w + " "]
    return [x for x in out if x]

def pick(r):
    """A word for a text: a new one if there is any."""
    if NEW and r.random() < .8:
        w = r.choice(NEW)
    elif NEWNUM and r.random() < .5:
        w = str(r.choice(NEWNUM) + r.choice([-1, 0, 0, 1]))
    else:
        w = r.choice(WORDS)
    return r.choice(variants(r, w)) if r.random() < .35 else w

SPLIT = re.compile(r"\w+|\s|.", re.S)
def mutate(r, s):
    """A text with such a word put in at some place."""
    t = SPLIT.findall(s)
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        w = pick(r)
        x = r.random()
        k = r.randrange(len(t) + 1)
        if COUNTS and x < .25 and t:
            # a part as often as a new number says
            k = r.randrange(len(t))
            n = r.choice(COUNTS)
            t[k:k + 1] = [t[k]] * n if len(t[k]) * n < 700 else [t[k]]
        elif x < .55 and t:
            k = r.randrange(len(t))
            t[k] = w
        elif x < .9:
            t.insert(k, w)
        else:
            t.insert(r.choice([0, len(t)]), r.choice([w + "\n", "\n" + w, w]))
    return "".join(t)
