#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json (all of them were run through tools/seedlib.py and caught)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(H, "tools/missed.txt")).read().split()) if os.path.exists(os.path.join(H, "tools/missed.txt")) else set()
t = {}
for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    t.setdefault(d["property"], []).append("- `%s`%s: %s (needs: %s)" % (i, " **missed**" if i in missed else "", d["what_it_breaks"].rstrip("."), d["needs"].rstrip(".")))
s = "".join("**%s**\n\n%s\n\n" % (p, "\n".join(t[p])) for p in sorted(t))
f = os.path.join(H, "DESIGN.md"); x = open(f).read()
x = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + "\n%d bugs are kept in `seeded/`; the quick check of the property named catches each%s.\n\n" % (sum(map(len, t.values())), "" if not missed else " but those marked") + s + m.group(2), x, flags=re.S); open(f, "w").write(x)
