#!/usr/bin/env python3
"""Writes ../spec/chars.json: the alphabet the specification knows (code points, case folding, multi-unit grapheme clusters)."""
import json, os, unicodedata, math
base = [chr(c) for c in range(32, 127)] + ["\t", "\n", "\r", "\u00e9", "\u00c9", "\u00df", "\u03a9", "\u03c9", "\u0301", "\u00a0", "\u200d", "\u4e2d", "\u0416", "\u0436", "\u00d7", "\u0000", "\u0001", "\u007f", "\u00ff", "\u0100", "\ufeff", "\u2028", "\u266f", "\u266d", "\u266e", "\u0130", "\ufb00", "\u1e9e", "\u03a3", "\u03c3", "\u03c2", "\u0915", "\u0903", "\u1100", "\u1161"]
astral = sorted("\U0001F600\U0001F468\U0001F469\U0001F467\U0001F1EB\U0001F1F7\U0001F44D\U0001F3FD")
# grapheme cluster classes (UAX 29) of the alphabet
gcb = {"\r": "CR", "\n": "LF", "\u0301": "EX", "\U0001F3FD": "EX", "\u200d": "ZW", "\U0001F1EB": "RI", "\U0001F1F7": "RI", "\u0903": "SM", "\u1100": "HL", "\u1161": "HV"}
for c in "\t\0\1\x7f\ufeff\u2028": gcb[c] = "CN"
for c in "\U0001F600\U0001F468\U0001F469\U0001F467\U0001F44D": gcb[c] = "EP"
low = []
for c in base:
    f = c.casefold()
    if f != c: low.append([c, [[x] if False else ord(x) for x in f]])
esc = {}
for c in base + astral:
    if c == '"': e = '\\"'
    elif c == '\\': e = '\\\\'
    elif c == '\n': e = '\\n'
    elif c == '\r': e = '\\r'
    elif c == '\t': e = '\\t'
    elif c == '\0': e = '\\0'
    elif unicodedata.category(c) in ("Cc", "Cf", "Mn", "Zl") or c == "\u00a0": e = '\\u{%x}' % ord(c)
    else: e = c
    if e != c: esc[c] = e
hexd = lambda c: '\\u%04x' % ord(c)
out = dict(chars=[[c, ord(c)] for c in base + astral], gcb=[[c, k] for c, k in gcb.items()], fold=low, ideo=["\u4e2d"],
    white=[c for c in base if c in " \t\n\r\u00a0\u2028"], esc=[[c, e] for c, e in esc.items()],
    alpha=[c for c in base if c.isalpha() and c not in "\u4e2d"], sin=[round(math.sin(math.radians(d)) * 1e4) for d in range(0, 91)],
    music=["\u266f", "\u266d", "\u266e"],
    ctl=[[chr(c), hexd(chr(c))] for c in (0, 1)])
json.dump(out, open(os.path.join(os.path.dirname(__file__), "../spec/chars.json"), "w"), ensure_ascii=True)
