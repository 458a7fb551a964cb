"""Minimal PNG reader (stdlib zlib + numpy): returns the 'red == 0' mask of an image.

Independent of the Go decoder that codegen uses."""
import struct
import zlib
import numpy as np


def read_chunks(b):
    assert b[:8] == b"\x89PNG\r\n\x1a\n", "not a png"
    p = 8
    while p < len(b):
        n, t = struct.unpack(">I4s", b[p:p + 8])
        yield t, b[p + 8:p + 8 + n]
        p += 12 + n


def black_mask(path):
    """2-D bool array, True where the red channel is exactly zero."""
    data = open(path, "rb").read()
    idat, plte = b"", None
    for t, c in read_chunks(data):
        if t == b"IHDR":
            w, h, depth, ctype, comp, filt, inter = struct.unpack(">IIBBBBB", c)
        elif t == b"PLTE":
            plte = np.frombuffer(c, np.uint8).reshape(-1, 3)
        elif t == b"IDAT":
            idat += c
        elif t == b"tRNS":
            raise ValueError("png transparency is not supported")
    if inter or depth == 16:
        raise ValueError("unsupported png flavour")
    raw = zlib.decompress(idat)
    chans = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ctype]
    stride = (w * depth * chans + 7) // 8
    bpp = max(1, depth * chans // 8)
    prev = bytearray(stride)
    rows = []
    p = 0
    for _ in range(h):
        ft = raw[p]
        cur = bytearray(raw[p + 1:p + 1 + stride])
        p += 1 + stride
        if ft == 1:
            for i in range(bpp, stride):
                cur[i] = (cur[i] + cur[i - bpp]) & 255
        elif ft == 2:
            for i in range(stride):
                cur[i] = (cur[i] + prev[i]) & 255
        elif ft == 3:
            for i in range(stride):
                a = cur[i - bpp] if i >= bpp else 0
                cur[i] = (cur[i] + (a + prev[i]) // 2) & 255
        elif ft == 4:
            for i in range(stride):
                a = cur[i - bpp] if i >= bpp else 0
                c = prev[i - bpp] if i >= bpp else 0
                b = prev[i]
                q = a + b - c
                pa, pb, pc = abs(q - a), abs(q - b), abs(q - c)
                pr = a if pa <= pb and pa <= pc else (b if pb <= pc else c)
                cur[i] = (cur[i] + pr) & 255
        rows.append(bytes(cur))
        prev = cur
    arr = np.frombuffer(b"".join(rows), np.uint8).reshape(h, stride)
    if depth < 8:
        bits = np.unpackbits(arr, axis=1)
        bits = bits[:, :w * depth].reshape(h, w, depth)
        weights = (1 << np.arange(depth - 1, -1, -1)).astype(np.uint8)
        val = (bits * weights).sum(axis=2)
    else:
        val = arr.reshape(h, w, chans)[:, :, 0].astype(np.int64)
    if ctype == 3:
        val = plte[val, 0]
    return val == 0
