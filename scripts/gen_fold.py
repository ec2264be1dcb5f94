#!/usr/bin/env python3
"""Which symbols a character stands for, computed with Python's Unicode tables (an implementation
independent of the crates noodle uses). Only characters which Unicode 3.2 has already and which did
not change since are included, so the version of the tables does not matter.

Output: ranges `first<TAB>last<TAB>symbols`, where symbols are a-z, ' (punctuation), _ (space).
"""
import sys
import unicodedata as new

old = new.ucd_3_2_0


def fold(ucd, c):
    out = ""
    for d in ucd.normalize("NFKD", c):
        if ucd.category(d)[0] == "M":
            continue
        d = {"æ": "ae", "Æ": "ae", "œ": "oe", "Œ": "oe"}.get(d, d)
        for e in d:
            for u in e.upper():
                for x in u.lower():
                    if "a" <= x <= "z":
                        out += x
                    elif x in " _":
                        out += "_"
                    else:
                        out += "'"
    return out


rows = []
for cp in range(1, 0x30000):
    c = chr(cp)
    if 0xD800 <= cp < 0xE000 or old.category(c) == "Cn" or cp == 10:
        continue
    a, b = fold(new, c), fold(old, c)
    if a != b:
        continue
    if rows and rows[-1][1] == cp - 1 and rows[-1][2] == a:
        rows[-1][1] = cp
    else:
        rows.append([cp, cp, a])
for r in rows:
    sys.stdout.write("%d\t%d\t%s\n" % tuple(r))
