"""Development tool: fills TABLE in DESIGN.md's planted-bug section from
seeded/*/meta.json (between the markers)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    rows = ["| id | caught by | what it breaks | needs |", "|---|---|---|---|"]
    note = json.load(open(os.path.join(HERE, "tools", "missed_first.json")))
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        b = os.path.basename(d)
        c = lambda t: t.replace("|", "/").replace("\n", " ")
        rows.append("| %s%s | %s | %s | %s |" % (
            b, "*" if b in note else "", m["property"],
            c(m["what_it_breaks"]), c(m["needs"])))
    s = re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)",
               lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s,
               flags=re.S)
    open(p, "w").write(s)


main()
