"""Tokens and document helpers shared by the generator, the writer and the projector.

A scenario is a plain JSON value (see spec/Tiled.tla).  Scalars are tokens.
"""
import re

_SAFE = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.~-")


def enc(text):
    """Percent-encode everything but a few safe ASCII characters."""
    return "".join(
        chr(b) if b in _SAFE else "%%%02X" % b
        for b in text.encode("utf-8", "surrogatepass")
    )


def dec(text):
    out = re.sub(
        rb"%([0-9A-F]{2})", lambda m: bytes([int(m.group(1), 16)]), text.encode("ascii")
    )
    return out.decode("utf-8", "surrogatepass")


def encpath(text):
    return "/".join(enc(p) for p in text.split("/"))


def num(v):
    """Canonical token of a number."""
    if isinstance(v, int):
        return "n:%d" % v
    if v != v or v in (float("inf"), float("-inf")):
        return "odd:%r" % v
    if v == int(v):
        return "n:%d" % int(v)
    return "n:%r" % v


def flag(v):
    return "b:true" if v else "b:false"


def txt(v):
    return "s:" + enc(v)


def gid(v):
    """32-bit unsigned id as [top four bits, lower 28 bits]."""
    return [v >> 28, v & 0x0FFFFFFF]


def ungid(p):
    return (p[0] << 28) | p[1]


def untok(t):
    """Python value of a written token."""
    kind, _, rest = t.partition(":")
    if kind == "n":
        return int(rest) if re.fullmatch(r"-?\d+", rest) else float(rest)
    if kind == "b":
        return rest == "true"
    if kind == "s":
        return dec(rest)
    if kind == "p":
        return dec(rest)
    raise ValueError(t)


def color_text(c):
    digits = "".join("0123456789abcdef"[d] for d in c["hex"])
    if c.get("upper"):
        digits = digits.upper()
    return ("#" if c.get("hash", True) else "") + digits


def rec(v):
    """TLC writes the empty record as []."""
    return {} if v == [] else v
