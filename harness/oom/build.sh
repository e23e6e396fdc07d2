#!/bin/sh
# regenerates mods.h from the .wat files
set -e
cd "$(dirname "$0")"
T=$(mktemp -d)
for f in a b c d m l k z; do wat2wasm --enable-threads --enable-tail-call --enable-multi-memory --debug-names $f.wat -o $T/$f.wasm; done
python3 - $T <<'P'
import sys
def name(s):
    return bytes([len(s)]) + s.encode()
def sub(i, b):
    return bytes([i, len(b)]) + b
# memory size, alignment, table size, alignment; needed; import info
DY = {"m": (b"\x10\x03\x01\x00", ["l", "k"], [("env", "w", 0x11)]),
      "l": (b"\x10\x02\x00\x00", ["k"], []),
      "k": (b"\x10\x04\x01\x01", [], []),
      "z": (b"\x10\x04\x01\x01", ["l"], [])}
o="/* generated from the .wat files beside it by build.sh */\n"
for f in "abcdmlkz":
    b=open(sys.argv[1]+'/%s.wasm'%f,'rb').read()
    if f in DY:
        mi, need, imp = DY[f]
        c = name("dylink.0") + sub(1, mi)
        if need:
            c += sub(2, bytes([len(need)]) + b"".join(map(name, need)))
        if imp:
            c += sub(4, bytes([len(imp)]) + b"".join(name(x) + name(y) + bytes([z]) for x, y, z in imp))
        b = b[:8] + bytes([0, len(c)]) + c + b[8:]
    o+="static const unsigned char oom_%s[] = {\n"%f+"".join("    "+" ".join("0x%02x,"%x for x in b[i:i+14])+"\n" for i in range(0,len(b),14))+"};\n"
open('mods.h','w').write(o)
P
rm -rf "$T"
