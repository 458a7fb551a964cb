#!/usr/bin/env python3
"""Build the reference glyph model from the font *sources* (sprite sheets, cluster indices, alias lists).

This is the oracle the monitors compare the painting code with.  It is computed from
codegen/config.json and codegen/src_data only: it never looks at the generated src/fonts/*.rs,
nor does it run any code of the repository.

usage: mkmodel.py CODEGEN_DIR OUT.bin [SRC_DIR]
       mkmodel.py --literals REPO tools/known_literals.json
       mkmodel.py --new codegen|wasm_demo DIR

Binary layout (little endian):
  u32 magic 'VPM1', u32 number of fonts, then per font:
    u8 len + name, u32 line height, u32 hash seed, u32 number of entries, then per entry:
      u8 flags (1: comes from the alias list), u8 len + utf-8 cluster, u8 len + utf-8 canonical cluster,
      u8 w, u8 h, u8 y offset, h * u32 rows (bit i set: column i counted from the left is foreground)
  then u32 number of pairs and per pair two u8 len + utf-8 strings: listed Latin letters and their
  canonical decomposition (Unicode NFD, from Python's unicodedata, not from the alias list)
  then a dictionary for the workload generators, taken from the literals in SRC_DIR (not part of the
  oracle): u32 count and u64 numbers, u32 count and u8 len + utf-8 strings
"""
import json
import os
import re
import struct
import sys
import unicodedata

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pngread import black_mask  # noqa: E402

LATIN = ("Bold", "Regular", "Small")


def cluster(hexgc):
    return "".join(chr(int(h, 16)) for h in hexgc.split("-"))


def read_txt_index(path, cols):
    out = []
    for line in open(path, encoding="utf-8"):
        t = line.split("#", 1)[0].strip()
        if t:
            out.append((t, len(out) // cols, len(out) % cols))
    return out


def read_aliases(path):
    out = []
    if not path:
        return out
    for line in open(path, encoding="utf-8"):
        p = line.split("#", 1)[0].strip().split(" ")
        if len(p) == 2 and p[0] and p[1]:
            out.append((p[0], p[1]))
    return out


def trim(cell, limits):
    """Remove up to limits=(top,right,bottom,left) blank lines from each side; columns first."""
    top, right, bottom, left = limits
    n = 0
    while n < left and cell.shape[1] and not cell[:, 0].any():
        cell = cell[:, 1:]
        n += 1
    n = 0
    while n < right and cell.shape[1] and not cell[:, -1].any():
        cell = cell[:, :-1]
        n += 1
    if cell.shape[1] == 0:
        return np.zeros((0, 0), bool), 0
    yoff = 0
    while yoff < top and cell.shape[0] and not cell[0].any():
        cell = cell[1:]
        yoff += 1
    n = 0
    while n < bottom and cell.shape[0] and not cell[-1].any():
        cell = cell[:-1]
        n += 1
    return cell, yoff


def limits_for(g, row, col):
    size = g["size"]
    if g["name"] in LATIN:
        if (row, col) == (0, 2):  # space: keep 4px width and 2px height
            return (size // 2 - 1, size // 2 - 2, size // 2 - 1, size // 2 - 2)
    elif g["glyphTrim"] == "CJK":
        return (0, 0, 0, 0)
    return (size, size, size, size)


def load_fonts(cgdir):
    conf = json.load(open(os.path.join(cgdir, "config.json"), encoding="utf-8"))
    fonts = []
    for g in conf["glyphSets"]:
        path = lambda k: os.path.join(cgdir, g[k]) if g[k] else ""
        mask = black_mask(path("sprites"))
        if g["indexType"] == "txt-row-major":
            idx = read_txt_index(path("index"), g["cols"])
        else:
            m = json.load(open(path("index"), encoding="utf-8"))
            idx = [(e["hex"], e["row"], e["col"]) for e in m["map"]]
        pitch, b, size = g["size"] + g["gutter"], g["border"], g["size"]
        entries = {}
        for h, row, col in idx:
            y, x = b + row * pitch, b + col * pitch
            cell = mask[y:y + size, x:x + size]
            if cell.shape != (size, size):
                raise ValueError("cell outside of sprite sheet: %s %s" % (g["name"], h))
            c = cluster(h)
            if c in entries:
                raise ValueError("cluster listed twice: %s %s" % (g["name"], h))
            px, yoff = trim(cell, limits_for(g, row, col))
            entries[c] = (False, c, px, yoff)
        for canon, alias in read_aliases(path("aliases")):
            e = entries[cluster(canon)]
            if cluster(alias) in entries:
                raise ValueError("alias listed twice: %s %s" % (g["name"], alias))
            entries[cluster(alias)] = (True, e[1], e[2], e[3])
        fonts.append((g["name"], size, g["m3Seed"], entries))
    return fonts


def pack(fonts):
    out = [struct.pack("<II", 0x314D5056, len(fonts))]
    s8 = lambda s: struct.pack("<B", len(s.encode())) + s.encode()
    for name, size, seed, entries in fonts:
        out.append(s8(name) + struct.pack("<III", size, seed, len(entries)))
        for c, (is_alias, canon, px, yoff) in entries.items():
            h, w = px.shape
            out.append(struct.pack("<B", 1 if is_alias else 0) + s8(c) + s8(canon) + struct.pack("<BBB", w, h, yoff))
            if h:
                weights = (1 << np.arange(w, dtype=np.uint64))
                rows = (px.astype(np.uint64) * weights).sum(axis=1)
                out.append(struct.pack("<%dI" % h, *[int(r) for r in rows]))
    pairs = []
    for name, size, seed, entries in fonts:
        if name == "Regular":
            for c in entries:
                d = unicodedata.normalize("NFD", c)
                if len(c) == 1 and d != c:
                    pairs.append((c, d))
    out.append(struct.pack("<I", len(pairs)))
    for c, d in pairs:
        out.append(s8(c) + s8(d))
    return b"".join(out)


NUM = re.compile(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:_?[ui](?:8|16|32|64|128|size))?\b")
STR = re.compile(r'"((?:[^"\\\n]|\\.)*)"')
CHR = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])'")
ESC = re.compile(r"\\(u\{([0-9a-fA-F_]+)\}|x([0-9a-fA-F]{2})|.)")


def unescape(t):
    def f(m):
        h = m.group(2) or m.group(3)
        if h:
            v = int(h.replace("_", ""), 16)
            return chr(v) if v < 0x110000 and not 0xD800 <= v < 0xE000 else ""
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1), m.group(1))
    return ESC.sub(f, t)


def literals(src, exts=(".rs",)):
    """Numbers and strings written in source files, with how often.  Tables (lines of numbers only) and unit tests
    are left out."""
    nums, strs = {}, {}
    for d, _, files in sorted(w for w in os.walk(src) if "/target" not in w[0]):
        for name in sorted(files):
            if not name.endswith(exts) or name.endswith("_test.go"):
                continue
            for line in open(os.path.join(d, name), encoding="utf-8", errors="replace"):
                t = line.strip()
                if t.startswith("#[cfg(test)]"):
                    break
                t = re.sub(r"(^|\s)//.*$", "", t)
                if not t or re.fullmatch(r"[0-9a-fA-FxX_, ]+", t):
                    continue
                for m in NUM.finditer(t):
                    v = m.group(1).replace("_", "")
                    try:
                        v = int(v, 0)
                    except ValueError:
                        v = int(v, 10)
                    if v < 1 << 64:
                        nums[v] = nums.get(v, 0) + 1
                for rx in (STR, CHR):
                    for m in rx.finditer(t):
                        v = unescape(m.group(1))
                        if v and len(v.encode()) < 256:
                            strs[v] = strs.get(v, 0) + 1
    return nums, strs


def new_literals(kind, nums, strs, most=40):
    """Those that were not there (or not as often) when tools/known_literals.json was written."""
    known = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_literals.json")
    if not os.path.exists(known):
        return [], []
    k = json.load(open(known, encoding="utf-8"))[kind]
    had = {int(n): c for n, c in k["nums"].items()}
    return sorted(v for v in nums if nums[v] > had.get(v, 0))[:most], sorted(v for v in strs if strs[v] > k["strs"].get(v, 0))[:most]


def dictionary(src):
    """What workloads try as coordinates, lengths, contents and characters, next to random ones; then the new
    ones, which workloads try more.  They steer what is tried, never what is expected."""
    nums, strs = literals(src)
    return (sorted(nums, key=lambda v: (nums[v], v))[:400], sorted(strs)[:400], *new_literals("src", nums, strs))  # rare numbers first


def pack_dictionary(src):
    s8 = lambda s: struct.pack("<B", len(s.encode())) + s.encode()
    out = b""
    for l in dictionary(src) if src else ([], [], [], []):
        out += struct.pack("<I", len(l)) + b"".join(s8(v) if isinstance(v, str) else struct.pack("<Q", v) for v in l)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "--literals":
        # of the tree in argv[2], as tools/known_literals.json
        r = {}
        for k, d, e in (("src", "src", ".rs"), ("codegen", "codegen", ".go"), ("wasm_demo", "wasm_demo", (".rs", ".js"))):
            n, s = literals(os.path.join(sys.argv[2], d), e)
            r[k] = {"nums": {str(v): n[v] for v in sorted(n)}, "strs": {v: s[v] for v in sorted(s)}}
        json.dump(r, open(sys.argv[3], "w"), indent=0, sort_keys=False)
        sys.exit(0)
    if sys.argv[1] == "--new":
        # new literals in a directory of sources, as JSON: KIND DIR
        print(json.dumps(new_literals(sys.argv[2], *literals(sys.argv[3], {"src": (".rs",), "codegen": (".go",), "wasm_demo": (".rs", ".js")}[sys.argv[2]]))))
        sys.exit(0)
    data = pack(load_fonts(sys.argv[1])) + pack_dictionary(sys.argv[3] if len(sys.argv) > 3 else None)
    tmp = sys.argv[2] + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, sys.argv[2])
    print(len(data))
