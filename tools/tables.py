#!/usr/bin/env python3
"""Compares the tables of the model (harness/model/verifgen) with those in the binary of
the installed libaom: quantizer look-ups and matrices, and the default probabilities.
Run by hand after tools/snapshot.py. Rows of probabilities that the compiler has turned
into code are not found; random streams cover those."""
import glob, re, struct
so = open(glob.glob("/usr/lib/*/libaom.so.3*")[0], "rb").read()
G = "/verif/harness/model/verifgen/"

def table(f, name):
    s = re.sub(r"//.*", "", open(G + f).read())
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    i = s.index("{", s.index("var " + name + " "))
    d = 0
    for j in range(i, len(s)):
        d += (s[j] == "{") - (s[j] == "}")
        if d == 0:
            return eval(s[i:j + 1].replace("{", "[").replace("}", "]"))

for n in ("Dc_Qlookup", "Ac_Qlookup"):
    for r in table("tilegroup/reconstruct.go", n):
        print(n, struct.pack("<256h", *r) in so)
m = table("tilegroup/quantizer.go", "Quantizer_Matrix")
sizes = [("4x4", 16), ("8x8", 64), ("16x16", 256), ("32x32", 1024), ("4x8", 32), ("8x4", 32), ("8x16", 128), ("16x8", 128), ("16x32", 512),
         ("32x16", 512), ("4x16", 64), ("16x4", 64), ("8x32", 256), ("32x8", 256)]
off, o = {}, 0
for n, s in sizes:
    off[n] = (o, s)
    o += s
start = so.index(bytes(m[0][0][:64]))
bad = 0
for level in range(15):
    for plane in range(2):
        ref = so[start + (level * 2 + plane) * 3344:][:3344]
        for n, s in sizes:  # libaom keeps coefficients transposed
            t = "x".join(reversed(n.split("x")))
            bad += bytes(m[level][plane][off[n][0]:][:s]) != ref[off[t][0]:][:s]
print("matrices that differ:", bad)
miss = tot = 0
def rows(x):
    if isinstance(x[0], int):
        yield x
    else:
        for y in x:
            yield from rows(y)
for n in re.findall(r"^var (\w+) = \[", open(G + "uncompressedheader/cdf.go").read(), re.M):
    for r in rows(table("uncompressedheader/cdf.go", n)):
        tot += 1
        if b"".join(struct.pack("<H", 32768 - x) for x in r[:-2]) + b"\0\0\0\0" not in so:
            miss += 1
            print("not found:", n, r)
print("rows of probabilities:", tot, "not found:", miss)
