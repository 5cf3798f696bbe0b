"""Rewrites the `fixed` list of known_findings.json from the fix: commits in the repository."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {}
for line in """
dd509d9 C10
37e2539 C10
9f1d553 C10
10585a5 C10
bd1a745 C04
eeb3431 C06
3441d7f C06
c9c36e9 C10
771dc5b C04
93ce3ce C06
1721cfb C04
44c751d C10
50913a7 C10
0ef6af1 C04
78451e6 C04
8c2fd97 C07
ca79968 C04
96b2ab6 C10
2982ebc C07
6df9b7c C04
7913933 C04
d451edb C06
a0fff48 C04
80f6ee7 C03
fb738f5 C06
0b73a05 C06
906ee94 C06
02853a1 C10
e536ae7 C07
26cdb35 C07
2a15554 C10
b205320 C06
27604d8 C10
ab89d43 C10
f899130 C11
dfbe468 C10
4670787 C05
ec995b8 C09
58f915c C04
6361c36 C14
cd8be15 C14
aeb496a C12
1f7a900 C17
381ba1e C11
582d2cd C04
6f92975 C10
965112c C04
c31b386 C10
ec4fb41 C19
d559b09 C19
24d69df C19
b538269 C13
02e695e C04
4355612 C17
438d56e C15
83d0c97 C10
f2e171e C07
56c80e4 C10
""".split("\n"):
    if line:
        c, p = line.split()
        MAP[c] = p
k = json.load(open(os.path.join(ROOT, "known_findings.json")))
k["fixed"] = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "2e881f0..HEAD"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        if h not in MAP:
            sys.exit("unmapped " + l)
        k["fixed"].append("fixed: property=%s %s %s" % (MAP[h], h, s[5:]))
json.dump(k, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
