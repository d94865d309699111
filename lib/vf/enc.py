"""Encoding of doubles and library objects in commands and events."""
import json, struct


def D(x):
    hi, lo = struct.unpack(">ii", struct.pack(">d", float(x)))
    return [hi, lo]


def F(v):
    if isinstance(v, int):
        return float(v)
    return struct.unpack(">d", struct.pack(">ii", v[0], v[1]))[0]


def proj(A, Z, T=0.0, Q=0):
    return [D(A), D(Z), D(Q), D(T)]


def tgt(A, Z, stn=1.0):
    return [D(A), int(Z), D(stn)]


def cfg(zeff=1, corr=0, calc=1, low=0, scat=255, sf=1.0):
    return [zeff, corr, calc, low, scat, D(sf)]


def mat(e, rho=1.0, th=0.0, I=0.0, M=None):
    """e: list of (A, Z, stn)"""
    return {"e": [[D(a), int(z), D(s)] for a, z, s in e], "rho": D(rho), "th": D(th), "I": D(I),
            "M": [] if M is None else D(M)}


def line(cmd):
    return json.dumps(cmd, separators=(",", ":"))


def human(v):
    """event with the encoded doubles written as numbers, for replay files"""
    if isinstance(v, list):
        if len(v) == 2 and all(isinstance(x, int) and not isinstance(x, bool) for x in v):
            return repr(F(v))
        return [human(x) for x in v]
    if isinstance(v, dict):
        return {k: human(x) for k, x in v.items()}
    return v
