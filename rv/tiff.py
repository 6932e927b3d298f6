"""A small TIFF writer: one band, optional EXIF and GPS directories, either byte order."""
import struct

import numpy as np

SIZE = {2: 1, 3: 2, 4: 4, 5: 8}


def _bytes(e, typ, vals):
    if typ == 2:
        return vals.encode() + b"\0"
    if typ == 5:
        return b"".join(struct.pack(e + "II", a, b) for a, b in vals)
    return b"".join(struct.pack(e + {3: "H", 4: "I"}[typ], v) for v in vals)


def write(path, a, exif=None, gps=None, big=False):
    """exif and gps: lists of (tag, type, values); rationals as (numerator, denominator)."""
    e = ">" if big else "<"
    a = np.ascontiguousarray(a, dtype=a.dtype.newbyteorder(e))
    kind = {"u": 1, "i": 2, "f": 3}[a.dtype.kind]
    tags = [(256, 4, [a.shape[1]]), (257, 4, [a.shape[0]]), (258, 3, [a.dtype.itemsize * 8]), (259, 3, [1]), (262, 3, [1]),
            (271, 2, "MicaSense"), (273, 4, [0]), (277, 3, [1]), (278, 4, [a.shape[0]]), (279, 4, [a.nbytes]), (339, 3, [kind])]
    subs = [(34665, exif), (34853, gps)]
    tags += [(t, 4, [0]) for t, v in subs if v]
    out = bytearray((b"MM" if big else b"II") + struct.pack(e + "HI", 42, 8))

    def directory(entries, at):
        """Directory bytes placed at ``at``, with its values behind it."""
        entries = sorted(entries)
        body = struct.pack(e + "H", len(entries))
        extra, pos = b"", at + 2 + 12 * len(entries) + 4
        for t, typ, vals in entries:
            raw = _bytes(e, typ, vals)
            n = len(raw) // SIZE[typ]
            if len(raw) <= 4:
                body += struct.pack(e + "HHI", t, typ, n) + raw.ljust(4, b"\0")
            else:
                body += struct.pack(e + "HHII", t, typ, n, pos + len(extra))
                extra += raw + b"\0" * (len(raw) % 2)
        return body + struct.pack(e + "I", 0) + extra

    where = {}
    pos = 8 + len(directory(tags, 8))
    blocks = b""
    for t, v in subs:
        if v:
            where[t] = pos + len(blocks)
            blocks += directory(v, where[t])
    where[273] = pos + len(blocks)
    tags = [(t, typ, [where[t]] if t in where else v) for t, typ, v in tags]
    out += directory(tags, 8) + blocks + a.tobytes()
    with open(path, "wb") as f:
        f.write(out)


