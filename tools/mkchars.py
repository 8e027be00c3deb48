"""Write spec/chars.json: the Unicode classes (as Perl has them), case mappings and UTF-8 forms (as Python has them) of
the sample characters the drivers use, so that neither comes from the code under test or the crates it uses."""
import json, os, subprocess, sys

SAMPLE = ("éÉßñÑüÜ日本жЖΣσς𝒜😀٣½Ⅷªǅİ·—–“”‘’…€×©®™«»¿¡§°²³µªº"
          "\u00a0\u0085\u00ad\u0301\u0307\u2003\u200b\u200d\u2028\u2029\u3000\ufeff\x96\x97\ue000\U000e0041"
          "ʰʼnǄǆẞK\u212bﬁΐ\u0903\u20dd७3①Ⓐ‿⁀ˆ∑←→⇒⇐↔〇々ー가אب\u200c\u200f\u2060\u180e\ufffd\u1680\u2009\u202f\u205f\u000b\u000c"
          "\u0149\u1f88ΑαåÅøØçÇłŁ𐐀𐐨𝟘🏳🇺\ufe0f\u034f\u0660\u06f0\u0966\u2160\u2170\u00bc\u3007\u3021\U0001f1fa"
          "\u2013\u2014\u2019\u2026\u2190\u2192\u21d0\u21d2")
CLASSES = {"alphabetic": r"\p{Alphabetic}", "letter": r"\p{L}", "nd": r"\p{Nd}", "number": r"\p{N}", "space": r"\p{White_Space}",
           "word": r"[\p{Alphabetic}\p{M}\p{Nd}\p{Pc}\p{Join_Control}]"}

def members(chars, cls):
    prog = 'use open qw(:std :utf8); binmode STDIN, ":utf8"; while (<STDIN>) { my $c = chr(hex($_)); print(($c =~ /^%s$/u) ? "1" : "0"); }' % cls
    out = subprocess.run(["perl", "-CS", "-e", prog], input="".join("%x\n" % ord(c) for c in chars), text=True, capture_output=True, check=True).stdout
    return [c for c, b in zip(chars, out) if b == "1"]

def main():
    chars = sorted(set(SAMPLE) | {x for c in SAMPLE for x in c.lower() if ord(x) > 127})
    table = {"ascii": [chr(i) for i in range(128)], "control": [chr(i) for i in range(32)] + ["\x7f"]}
    for n, cls in CLASSES.items():
        table[n] = members(chars, cls)
    ascii_ = [chr(i) for i in range(128)]
    table["cased"] = members(ascii_ + chars, r"\p{Cased}")
    table["caseignorable"] = members(ascii_ + chars, r"\p{Case_Ignorable}")
    table["middot"] = ["·"]
    table["lower"] = {c: list(c.lower()) for c in [chr(i) for i in range(65, 91)] + chars if c.lower() != c}
    table["utf8"] = {c: list(c.encode()) for c in chars + ["\ue100", "\ue101", "\ue102"]}
    table.update(capitalsigma="Σ", finalsigma="ς", passopen="\x96", passclose="\x97", tokopen="\ue100", tokclose="\ue101", toksep="\ue102")
    return table

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "chars.json")
    if "--compare" in sys.argv:
        old, new = json.load(open(p)), main()
        for k in new:
            o = old.get(k)
            print(k, "missing now:", [x for x in o if x not in new[k]], "changed:", [x for x in o if isinstance(o, dict) and x in new[k] and o[x] != new[k][x]])
    else:
        json.dump(main(), open(p, "w"), ensure_ascii=True, sort_keys=True)
