"""Record the literals of the sources the specification was written for (lib/literals.json)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
import words
with open(os.path.join(HERE, "..", "lib", "literals.json"), "w", encoding="utf-8") as f:
    json.dump(dict(sorted(words.literals().items())), f, indent=0, ensure_ascii=True)
    f.write("\n")
