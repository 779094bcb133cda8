# encoding: utf-8
"""DESIGN.md = tools/design.md with its tables filled in: python tools/design.py"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fixes():
    out = ["| property | commit | what failed |", "|---|---|---|"]
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
            if m:
                out.append("| %s | %s | %s |" % (m.group(1), m.group(2), m.group(3).replace("|", "\\|")))
    return "\n".join(out)


def seeds():
    with open(os.path.join(HERE, "tools", "seeds.json")) as f:
        notes = json.load(f)
    out = ["| planted bug | breaks | needs | check |", "|---|---|---|---|"]
    base = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(base)):
        with open(os.path.join(base, n, "meta.json")) as f:
            m = json.load(f)
        out.append("| %s | %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), notes.get(n, m["property"])))
    return "\n".join(out)


def main():
    with open(os.path.join(HERE, "tools", "design.md")) as f:
        text = f.read()
    text = text.replace("@FIXES@", fixes()).replace("@SEEDS@", seeds())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
