#!/usr/bin/env python3
"""Builds the reference model's tables (sim/data/*) from the *published* tables kept in
/repo/encoding_tables (not from src/generated), and cross-checks them against Python's own codecs.
Run once by hand; the output is committed, so checks never read the tables from /repo."""
import os, struct, sys
R = sys.argv[1] if len(sys.argv) > 1 else "/repo"
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "data")
SB = [("ibm_866","ibm-cp866","cp866")] + \
     [("iso_8859_%d"%n,"iso-8859-%d"%n,"iso8859_%d"%n) for n in (1,2,3,4,5,6,7,8,9,10,11,13,14,15,16)] + \
     [("koi8_r","koi8-r","koi8_r"),("koi8_u","koi8-u","koi8_u"),("mac_roman","mac-roman","mac_roman"),("mac_cyrillic","mac-cyrillic","mac_cyrillic")] + \
     [("windows_%d"%n,"windows-cp%d"%n,"cp%d"%n) for n in (874,1250,1251,1252,1253,1254,1255,1256,1257,1258)]
def table(path, base):
    t = {}
    for l in open(path, encoding="utf8", errors="replace"):
        q = l.split()
        if len(q) >= 2 and not q[0].startswith("#") and not q[1].startswith("#"): t[int(q[0], base)] = int(q[1], 16)
    return t
os.makedirs(OUT, exist_ok=True)
with open(OUT + "/single.bin", "wb") as f, open(OUT + "/single_names.txt", "w") as g:
    for mod, fn, codec in SB:
        t = table(R + "/encoding_tables/single_byte/ascii_ext/%s.txt" % fn, 16)
        for b in range(256):
            try: want = ord(bytes([b]).decode(codec))
            except UnicodeDecodeError: want = None
            assert t.get(b) == want, (mod, b)
        f.write(b"".join(struct.pack("<H", t.get(b, 0)) for b in range(128, 256)))
        g.write(mod + "\n")
b5 = table(R + "/encoding_tables/whatwg/index-big5.txt", 10)
with open(OUT + "/big5.bin", "wb") as f:
    for i in range(max(b5) + 1): f.write(struct.pack("<I", b5.get(i, 0)))
j = table(R + "/encoding_tables/whatwg/index-jis0208.txt", 10)
with open(OUT + "/jis.bin", "wb") as f:
    for i in range(max(j) + 1): f.write(struct.pack("<H", j.get(i, 0)))
print(len(SB), len(b5), len(j))
