#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and a log of lines '<id> <check> rc=<n> ...'."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d) rc=(\d+) (.*)", l)
        if m:
            got[m.group(1)] = (m.group(2), m.group(3), re.sub(r".*?\ds\) *|.* s\) *", "", m.group(4)).strip())
print("| bug | what it breaks | needs | caught by | reported as |\n|---|---|---|---|---|")
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    c = got.get(i)
    t = lambda s: s.replace("|", "/").replace("\n", " ")
    print(f"| {i} | {t(m['what_it_breaks'])} | {t(m['needs'])} | {c[0] + ' quick' if c and c[1] == '1' else 'MISSED' if c else '?'} | {t(c[2]) if c else ''} |")
