#!/usr/bin/env python3
"""Make a random, valid font configuration (config.json, sprite sheets, indices, aliases, legal notices).

usage: fontgen.py CODEGEN_DIR SEED [NUMBERS]     overwrites CODEGEN_DIR/config.json and CODEGEN_DIR/src_data
NUMBERS (a JSON list) are used now and then as sizes, counts, code points and so on.
Prints a JSON description of what was made."""
import json
import os
import random
import shutil
import struct
import sys
import zlib

import numpy as np

NAMES = ["Emoji", "Hanzi", "Bold", "Regular", "Small"]
LATIN = ("Bold", "Regular", "Small")
# where clusters of each font may begin: the Unicode blocks the generator is documented to know, as it
# groups them ("in currently supported fonts"); no control characters
STARTS = {
    "Emoji": [(0x20, 0x7E), (0x80, 0xFF), (0x2000, 0x206F), (0x2100, 0x214F), (0x2190, 0x21FF), (0x2300, 0x23FF), (0x2460, 0x24FF), (0x25A0, 0x25FF), (0x2600, 0x26FF), (0x2700, 0x27BF),
              (0x2900, 0x297F), (0x2B00, 0x2BFF), (0x3000, 0x303F), (0x3200, 0x32FF), (0xE000, 0xF8FF), (0x1F000, 0x1F02F), (0x1F0A0, 0x1F0FF), (0x1F100, 0x1F1FF), (0x1F200, 0x1F2FF),
              (0x1F300, 0x1F5FF), (0x1F600, 0x1F64F), (0x1F680, 0x1F6FF), (0x1F780, 0x1F7FF), (0x1F900, 0x1F9FF), (0x1FA70, 0x1FAFF)],
    "Hanzi": [(0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xFF00, 0xFFEF), (0x3000, 0x303F), (0x20000, 0x2A6DF), (0x2A700, 0x2B73F), (0x2B740, 0x2B81F), (0x2B820, 0x2CEAF), (0x2CEB0, 0x2EBEF), (0x2F800, 0x2FA1F), (0x30000, 0x3134F)],
    "Latin": [(0x20, 0x7F), (0x80, 0xFF), (0x100, 0x17F), (0x2000, 0x206F), (0x20A0, 0x20CF), (0xFFF0, 0xFFFD)],
}


def start(r, ranges):
    """A first code point; often the first or last of its block."""
    if NUMBERS and r.random() < 0.2:
        n = r.choice(NUMBERS) + r.choice([0, 0, 0, 1, -1, r.randrange(-16, 16)])
        if any(lo <= n <= hi for lo, hi in ranges):
            return n
    lo, hi = r.choice(ranges)
    k = r.random()
    return lo if k < 0.06 else hi if k < 0.15 else r.randint(lo, hi)


NUMBERS = []


def or_number(r, v, lo, hi):
    """v, or now and then one of NUMBERS (or next to it) if it is in range."""
    if NUMBERS and r.random() < 0.35:
        n = r.choice(NUMBERS) + r.choice([0, 0, 0, 0, 1, -1])
        if lo <= n <= hi:
            return n
    return v


FOLLOW = [0x300, 0x301, 0x308, 0x327, 0x200D, 0xFE0F, 0x20E3, 0x1F3FB, 0x1F3FF, 0x2642, 0x2640, 0x1F466, 0x1F469, 0x61, 0x4E00]


def follow(r):
    n = or_number(r, 0, 0x80, 0x10FFFF)
    return n if n and not 0xD800 <= n < 0xE000 else r.choice(FOLLOW)


def m3(text, seed):
    M = 0xFFFFFFFF
    rol = lambda v, n: ((v << n) | (v >> (32 - n))) & M
    h = seed
    for c in text:
        k = ord(c) * 0xcc9e2d51 & M
        h ^= rol(k, 15) * 0x1b873593 & M
        h = (rol(h, 13) * 5 + 0xe6546b64) & M
    h ^= len(text.encode())
    h ^= h >> 16
    h = h * 0x85ebca6b & M
    h ^= h >> 13
    h = h * 0xc2b2ae35 & M
    return h ^ (h >> 16)


def write_png(path, r, black):
    """black: bool array; random colour type, bit depth, row filters and chunk sizes."""
    h, w = black.shape
    flavour = r.choice(["g1", "g8", "p1", "p4", "p8", "rgb"])
    plte = b""
    bg = r.choice([255, 255, 200, 128])
    if flavour == "g1":
        depth, ctype, data, bpp = 1, 0, np.packbits(~black, axis=1), 1
    elif flavour == "g8":
        depth, ctype, data, bpp = 8, 0, np.where(black, 0, bg).astype(np.uint8), 1
    elif flavour == "rgb":
        depth, ctype, bpp = 8, 2, 3
        data = np.repeat(np.where(black, 0, bg).astype(np.uint8)[:, :, None], 3, axis=2).reshape(h, w * 3)
    else:
        ctype, bpp = 3, 1
        fg = r.randrange(2)
        cols = [(bg, bg, bg)] * 2
        cols[fg] = (0, 0, 0)
        idx = np.where(black, fg, 1 - fg).astype(np.uint8)
        if flavour == "p1":
            depth, data = 1, np.packbits(idx.astype(bool), axis=1)
        elif flavour == "p4":
            depth = 4
            if w % 2:
                idx = np.concatenate([idx, np.zeros((h, 1), np.uint8)], axis=1)
            data = (idx[:, ::2] << 4 | idx[:, 1::2]).astype(np.uint8)
        else:
            depth, data = 8, idx
        plte = b"".join(bytes(c) for c in cols)
    raw = bytearray()
    prev = np.zeros(data.shape[1], np.uint8)
    for row in data:
        ft = r.choice([0, 0, 1, 2])
        raw.append(ft)
        if ft == 0:
            raw += row.tobytes()
        elif ft == 1:
            left = np.concatenate([np.zeros(bpp, np.uint8), row[:-bpp]]) if len(row) > bpp else np.zeros(len(row), np.uint8)
            raw += (row - left).astype(np.uint8).tobytes()
        else:
            raw += (row - prev).astype(np.uint8).tobytes()
        prev = row
    z = zlib.compress(bytes(raw), r.choice([0, 6]))
    chunk = lambda t, d: struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ctype, 0, 0, 0))
    if plte:
        out += chunk(b"PLTE", plte)
    step = r.choice([len(z), 8192])
    for i in range(0, len(z), step):
        out += chunk(b"IDAT", z[i:i + step])
    out += chunk(b"IEND", b"")
    with open(path, "wb") as f:
        f.write(out)
    return flavour


def glyph(r, nr, size):
    """A random size x size cell."""
    k = r.randrange(14)
    cell = np.zeros((size, size), bool)
    if k == 0:
        return cell  # blank
    if k == 1:
        return ~cell
    if k == 2:
        cell[r.randrange(size), r.randrange(size)] = True
        return cell
    if k == 3:
        cell[r.randrange(size)] = True
        return cell
    if k == 4:
        cell[:, r.randrange(size)] = True
        return cell
    if k == 5:  # only the corners
        cell[0, 0] = cell[-1, -1] = True
        return cell
    if NUMBERS and r.random() < 0.3:
        # so wide and so high
        gh, gw = (min(size, max(1, or_number(r, r.randint(1, size), 1, size))) for _ in range(2))
        y, x = r.randint(0, size - gh), r.randint(0, size - gw)
        cell[y:y + gh, x:x + gw] = nr.random((gh, gw)) < 0.5
        cell[y, x] = cell[y + gh - 1, x + gw - 1] = True
        return cell
    a, b = sorted((r.randrange(size), r.randrange(size)))
    c, d = sorted((r.randrange(size), r.randrange(size)))
    if k < 8:
        a, b, c, d = 0, size - 1, 0, size - 1
    cell[a:b + 1, c:d + 1] = nr.random((b - a + 1, d - c + 1)) < r.choice([0.05, 0.3, 0.5, 0.9])
    return cell


def hexgc(r, text):
    f = r.choice(["%x", "%X", "%04x", "%05X"])
    return "-".join(f % ord(c) for c in text)


def comment_line(r):
    return r.choice(["", "# a comment", "   ", "#", "\t# 1f600 not listed", "# 1f600 1f600-fe0f"])


def main(d, seed):
    r = random.Random("fontgen %d" % seed)
    nr = np.random.default_rng(seed & 0xFFFFFFFF)
    sd = os.path.join(d, "src_data")
    shutil.rmtree(sd)
    os.makedirs(sd)
    desc = {"seed": seed, "fonts": []}
    sets = []
    for name in r.sample(NAMES, 5):
        latin = name in LATIN
        size = r.choice([32, 31, 30, 24, 17, 16, 8, 5, 1, r.randint(1, 32), r.randint(1, 32)])
        cols = r.choice([1, 2, 3, 16, r.randint(1, 24)])
        gutter = r.choice([0, 0, 1, 2, 5, r.randint(0, 9)])
        border = r.choice([0, 1, 2, 3, gutter, r.randint(0, 9)])
        size, cols = or_number(r, size, 1, 32), or_number(r, cols, 1, 40)
        gutter, border = or_number(r, gutter, 0, 40), or_number(r, border, 0, 40)
        m3seed = r.choice([0, 1, 0xFFFFFFFF, r.getrandbits(32)])
        count = r.choice([2, 5, 40, 120, 120, r.randint(2, 300), r.randint(2, 300), 900])
        maxlen = r.choice([1, 2, 4, 8, 13, 20])
        more = r.choice([0.4, 0.4, 0.85])
        m3seed, count, maxlen = or_number(r, m3seed, 0, 0xFFFFFFFF), or_number(r, count, 2, 1200), or_number(r, maxlen, 1, 40)
        texts, hashes = [], set()

        def add(t):
            h = m3(t, m3seed)
            if t in texts or h in hashes or t.startswith("\n"):
                return False
            texts.append(t)
            hashes.add(h)
            return True

        if latin:
            add("\uFFFD")
        ranges = STARTS["Latin" if latin else name]
        if r.random() < 0.3:
            ranges = r.sample(ranges, r.randint(1, min(3, len(ranges))))
        tries = 0
        while len(texts) < count and tries < 20 * count:
            tries += 1
            t = chr(start(r, ranges))
            if texts and r.random() < 0.3:
                t = r.choice(texts)  # extend a listed cluster
            while len(t) < maxlen and r.random() < more:
                t += chr(follow(r))
            add(t)
        n_listed = len(texts)
        listed = list(texts)
        r.shuffle(listed)
        aliases = []
        if r.random() < 0.7:
            for _ in range(r.randint(0, 40)):
                t = chr(start(r, STARTS["Latin" if latin else name])) + "".join(chr(follow(r)) for _ in range(r.randrange(maxlen)))
                if add(t):
                    aliases.append((r.choice(listed), t))
        # cells
        itype = r.choice(["txt-row-major", "json-grid-coord"])
        if itype == "txt-row-major":
            cells = [(i // cols, i % cols) for i in range(n_listed)]
            nrows = (n_listed + cols - 1) // cols
        else:
            nrows = (n_listed + cols - 1) // cols + r.randrange(3)
            cells = [(i // cols, i % cols) for i in range(nrows * cols)]
            cells = r.sample(cells, n_listed)
            if r.random() < 0.3:  # two clusters may share a cell
                cells[-1] = cells[0]
        pitch = size + gutter
        h = border + nrows * pitch + r.choice([0, 0, border, r.randrange(5)])
        w = border + cols * pitch + r.choice([0, 0, border, r.randrange(5)])
        # what is outside of the cells must not matter
        img = nr.random((h, w)) < r.choice([0.0, 0.5, 1.0])
        for row in range(nrows):
            for col in range(cols):
                y, x = border + row * pitch, border + col * pitch
                img[y:y + size, x:x + size] = glyph(r, nr, size)
        low = name.lower()
        flavour = write_png(os.path.join(sd, low + ".png"), r, img)
        idx = "src_data/%s_index" % low
        if itype == "txt-row-major":
            idx += ".txt"
            lines = []
            for t in listed:
                while r.random() < 0.1:
                    lines.append(comment_line(r))
                lines.append(r.choice(["", "", " "]) + hexgc(r, t) + r.choice(["", "", " ", " # note", "\t#x", "\r"]))
            body = "\n".join(lines) + r.choice(["", "\n", "\n\n"])
        else:
            idx += ".json"
            body = json.dumps({"comment": ["made at random"], "map": [dict(hex=hexgc(r, t), row=c[0], col=c[1], label="x") for t, c in zip(listed, cells)]}, indent=r.choice([None, 1]))
        with open(os.path.join(d, idx), "w", newline="") as f:
            f.write(body)
        apath = ""
        if aliases or r.random() < 0.3:
            apath = "src_data/%s_aliases.txt" % low
            with open(os.path.join(d, apath), "w") as f:
                for c, a in aliases:
                    while r.random() < 0.1:
                        f.write(comment_line(r) + "\n")
                    f.write("%s %s%s\n" % (hexgc(r, c), hexgc(r, a), r.choice(["", "", " # nfc", "  "])))
        legal, ltext = "", ""
        if r.random() < 0.8:
            legal = "src_data/%s_legal.txt" % low
            ltext = "\n".join("// " + r.choice(["Notice %d" % r.randrange(10**6), "(c) Someon\u00e9 \u4e2d", "<b>\"quoted\" & {{braces}}</b>", "back\\slash 'n' `tick`", "100%d sure %s"]) for _ in range(r.randint(1, 6)))
            with open(os.path.join(d, legal), "w", encoding="utf-8") as f:
                f.write(r.choice(["", "\n", "  "]) + ltext + r.choice(["", "\n", "\n\n"]))
        trim = r.choice(["proportional", "CJK"])
        sets.append({"name": name, "m3Seed": m3seed, "sprites": "src_data/%s.png" % low, "size": size, "cols": cols, "gutter": gutter, "border": border, "legal": legal,
                     "index": idx, "indexType": itype, "aliases": apath, "glyphTrim": trim, "rustout": "../src/fonts/%s.rs" % low})
        desc["fonts"].append({"name": name, "size": size, "cols": cols, "gutter": gutter, "border": border, "m3Seed": m3seed, "listed": n_listed, "aliases": len(aliases), "trim": trim,
                              "indexType": itype, "png": flavour, "legal": ltext})
    with open(os.path.join(d, "config.json"), "w") as f:
        json.dump({"comment": ["made at random"], "glyphSets": sets}, f, indent=1)
    print(json.dumps(desc))


if __name__ == "__main__":
    if len(sys.argv) > 3:
        NUMBERS = json.loads(sys.argv[3])
    main(sys.argv[1], int(sys.argv[2]))
