"""Stands in for the optional module `zstd` (not installed here): decodes frames of raw and repeated blocks.

It is on the path of the worker only where a check asks for it; render.pack writes such frames, which any zstd
decoder reads.  The interface is that of the PyPI module `zstd`.
"""
import struct


class Error(Exception):
    pass


def version():
    return "1.5.5.1"


def _frame(data, at):
    if data[at : at + 4] != b"\x28\xb5\x2f\xfd":
        raise Error("no zstd frame")
    at += 4
    head = data[at]
    at += 1
    single, checksum, code = head >> 5 & 1, head >> 2 & 1, head >> 6
    if not single:
        at += 1
    size = [1 if single else 0, 2, 4, 8][code]
    if len(data) < at + size:
        raise Error("frame header cut short")
    total = int.from_bytes(data[at : at + size], "little") + (256 if size == 2 else 0) if size else None
    at += size
    out = b""
    while True:
        if len(data) < at + 3:
            raise Error("frame cut short")
        block = struct.unpack("<I", data[at : at + 3] + b"\0")[0]
        at += 3
        last, kind, n = block & 1, block >> 1 & 3, block >> 3
        if kind == 0:
            if len(data) < at + n:
                raise Error("block cut short")
            out += data[at : at + n]
            at += n
        elif kind == 1:
            if len(data) < at + 1:
                raise Error("block cut short")
            out += data[at : at + 1] * n
            at += 1
        else:
            raise Error("unsupported block")
        if last:
            break
    if checksum:
        if len(data) < at + 4:
            raise Error("checksum cut short")
        at += 4
    if total is not None and total != len(out):
        raise Error("wrong size of contents")
    return out, at


def decompress(data):
    data = bytes(data)
    if not data:
        raise Error("no data")
    out, at = b"", 0
    while at < len(data):
        try:
            part, at = _frame(data, at)
        except IndexError:
            raise Error("frame cut short")
        out += part
    return out


def compress(data, level=3, threads=0):
    """One frame of raw blocks, without a checksum."""
    data = bytes(data)
    out = b"\x28\xb5\x2f\xfd" + bytes([0xA0]) + struct.pack("<I", len(data))
    k = 1 << 16
    parts = [data[i : i + k] for i in range(0, len(data), k)] or [b""]
    for i, p in enumerate(parts):
        same = len(p) > 1 and p == p[:1] * len(p)
        head = (len(p) << 3) | (2 if same else 0) | (i == len(parts) - 1)
        out += struct.pack("<I", head)[:3] + (p[:1] if same else p)
    return out


loads = uncompress = decompress
dumps = compress
