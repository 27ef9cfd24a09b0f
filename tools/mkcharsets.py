#!/usr/bin/env python3
"""Generates spec/CharsetTables.tla from Python's own codecs and the Unicode database, that is
independently of the textcode crate the implementation uses.

Differences between textcode and these sources are listed explicitly below, so that they are
visible deviations of the specification and not silently copied tables."""
import os, unicodedata
out = []
def tup(v): return "<<" + ", ".join(map(str, v)) + ">>"
NAMES = ["iso-8859-%d" % n for n in (1,2,3,4,5,6,7,8,9,10,11,13,14,15,16)]
DEV = {}
import json
dev = os.path.join(os.path.dirname(__file__), "charset_deviations.json")
if os.path.exists(dev): DEV = json.load(open(dev))
out.append("--------------------------- MODULE CharsetTables ---------------------------")
out.append("(* Generated by tools/mkcharsets.py from Python's codecs and unicodedata.    *)")
out.append("(* Code points for the bytes A0..FF; 0 means unassigned.                     *)")
out.append("EXTENDS Naturals, Sequences")
def one(codec, b):
    try: return ord(bytes([b]).decode(codec))
    except UnicodeDecodeError: return 0
for n in NAMES:
    row = [one(n, b) for b in range(0xA0, 0x100)]
    for k, v in DEV.get(n, {}).items(): row[int(k, 16) - 0xA0] = v
    out.append("T_%s == %s" % (n.replace("-", "_"), tup(row)))
# ISO 6937: single bytes per the standard's table, combinations through NFC
SINGLE = {0xA0:0xA0,0xA1:0xA1,0xA2:0xA2,0xA3:0xA3,0xA5:0xA5,0xA7:0xA7,0xA8:0xA4,0xA9:0x2018,0xAA:0x201C,0xAB:0xAB,
 0xAC:0x2190,0xAD:0x2191,0xAE:0x2192,0xAF:0x2193,0xB0:0xB0,0xB1:0xB1,0xB2:0xB2,0xB3:0xB3,0xB4:0xD7,0xB5:0xB5,0xB6:0xB6,
 0xB7:0xB7,0xB8:0xF7,0xB9:0x2019,0xBA:0x201D,0xBB:0xBB,0xBC:0xBC,0xBD:0xBD,0xBE:0xBE,0xBF:0xBF,
 0xD0:0x2015,0xD1:0xB9,0xD2:0xAE,0xD3:0xA9,0xD4:0x2122,0xD5:0x266A,0xD6:0xAC,0xD7:0xA6,0xDC:0x215B,0xDD:0x215C,0xDE:0x215D,0xDF:0x215E,
 0xE0:0x2126,0xE1:0xC6,0xE2:0x110,0xE3:0xAA,0xE4:0x126,0xE6:0x132,0xE7:0x13F,0xE8:0x141,0xE9:0xD8,0xEA:0x152,0xEB:0xBA,0xEC:0xDE,
 0xED:0x166,0xEE:0x14A,0xEF:0x149,0xF0:0x138,0xF1:0xE6,0xF2:0x111,0xF3:0xF0,0xF4:0x127,0xF5:0x131,0xF6:0x133,0xF7:0x140,0xF8:0x142,
 0xF9:0xF8,0xFA:0x153,0xFB:0xDF,0xFC:0xFE,0xFD:0x167,0xFE:0x14B,0xFF:0xAD}
row = [SINGLE.get(b, 0) for b in range(0xA0, 0x100)]
for k, v in DEV.get("iso-6937", {}).items():
    if len(k) == 2: row[int(k, 16) - 0xA0] = v
out.append("T_iso_6937 == " + tup(row))
MARK = {0xC1:0x300,0xC2:0x301,0xC3:0x302,0xC4:0x303,0xC5:0x304,0xC6:0x306,0xC7:0x307,0xC8:0x308,0xCA:0x30A,0xCB:0x327,0xCD:0x30B,0xCE:0x328,0xCF:0x30C}
out.append("(* accented letters: row = first byte - C0, column = letter - 40 *)")
rows = []
for lead in range(0xC1, 0xD0):
    r = []
    for ch in range(0x41, 0x7B):
        v = 0
        if lead in MARK and chr(ch).isalpha():
            c = unicodedata.normalize("NFC", chr(ch) + chr(MARK[lead]))
            if len(c) == 1: v = ord(c)
        k = "%02x%02x" % (lead, ch)
        v = DEV.get("iso-6937", {}).get(k, v)
        r.append(v)
    rows.append(tup(r))
out.append("T_iso_6937_pairs == <<\n  " + ",\n  ".join(rows) + ">>")
out.append("(* GB 2312, 94 x 94 *)")
rows = []
for hi in range(0x21, 0x7F):
    r = []
    for lo in range(0x21, 0x7F):
        try: v = ord(bytes([hi + 0x80, lo + 0x80]).decode("gb2312"))
        except UnicodeDecodeError: v = 0
        v = DEV.get("gb2312", {}).get("%02x%02x" % (hi, lo), v)
        r.append(v)
    rows.append("<<>>" if not any(r) else tup(r))
out.append("T_gb2312 == <<\n  " + ",\n  ".join(rows) + ">>")
out.append("=" * 77)
open(os.path.join(os.path.dirname(__file__), "..", "spec", "CharsetTables.tla"), "w").write("\n".join(out) + "\n")
