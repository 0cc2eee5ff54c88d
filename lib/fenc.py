"""Encoding of IEEE doubles for TLC (see spec/FloatRec.tla)."""
import math, struct

NOF = {'k': [-1, -1, -1], 'm': 0, 'l': 0, 's': 0}
NAN = {'k': [-3, 0, 0], 'm': 2000000001, 'l': 2000000001, 's': 0}
CAP = 2000000000


def clampint(y):
    if y != y:
        return CAP + 1
    if y >= CAP:
        return CAP
    if y <= -CAP:
        return -CAP
    return int(round(y))


def key(x):
    x = float(x) + 0.0
    if x != x:
        return [-3, 0, 0]
    if x == 0:
        x = 0.0
    (u,) = struct.unpack('>Q', struct.pack('>d', x))
    u = (u ^ 0xFFFFFFFFFFFFFFFF) if u >> 63 else (u | (1 << 63))
    return [u >> 42, (u >> 21) & 0x1FFFFF, u & 0x1FFFFF]


def F(x, scale=1.0):
    """Record a double; m is in micro-units of `scale`."""
    if x is None:
        return dict(NOF)
    x = float(x)
    if x != x:
        return dict(NAN)
    l = clampint(1e6 * math.log(abs(x))) if x != 0 and not math.isinf(x) else (CAP if x else -CAP)
    return {'k': key(x), 'm': clampint(1e6 * (x / scale)), 'l': l, 's': (x > 0) - (x < 0)}


def M(x, unit=1e-6):
    """Plain scaled integer."""
    return clampint(float(x) / unit)
