"""Reference model of the wire format, in Python. A type is [kind, size, count] (see gen/pymodule.py)."""


def bounds(t):
    """Range of the C++ type"""
    k, n, _ = t
    if k == "b":
        return 0, 1
    if k == "u":
        return 0, (1 << 8 * n) - 1
    return -(1 << 8 * n - 1), (1 << 8 * n - 1) - 1


def representable(t, fmt):
    lo, hi = bounds(t)
    if t[0] == "s" and fmt["mode"] < 2:
        lo += 1
    return lo, hi


def size(t):
    return 0 if t is None else t[1] * (1 if t[2] is None else t[2])


def encode_int(v, n, fmt, signed):
    p = v
    if signed:
        half, full = 1 << 8 * n - 1, 1 << 8 * n
        m = fmt["mode"]
        p = (half - v if v < 0 else v) if m == 0 else (full - 1 + v if v < 0 else v) if m == 1 else v % full if m == 2 else v + half
    return p.to_bytes(n, "big" if fmt["big"] else "little")


def decode_int(b, fmt, signed):
    n = len(b)
    p = int.from_bytes(b, "big" if fmt["big"] else "little")
    if not signed:
        return p
    half, full = 1 << 8 * n - 1, 1 << 8 * n
    m = fmt["mode"]
    if m == 3:
        return p - half
    if p < half:
        return p
    return half - p if m == 0 else p - full + 1 if m == 1 else p - full


def encode(t, v, fmt):
    if t[2] is not None:
        return b"".join(encode([t[0], t[1], None], x, fmt) for x in v)
    return encode_int(int(v), t[1], fmt, t[0] == "s")


def decode(t, b, fmt):
    """Decode a value from exactly its bytes"""
    if t is None:
        return None
    if t[2] is not None:
        return [decode([t[0], t[1], None], b[i * t[1]:(i + 1) * t[1]], fmt) for i in range(t[2])]
    v = decode_int(b, fmt, t[0] == "s")
    return bool(v) if t[0] == "b" else v


def index_size(n):
    return 1 if n <= 0xFF else 2 if n <= 0xFFFF else 4


def flat(values):
    out = []
    for v in values:
        if isinstance(v, (list, tuple)):
            out += flat(v)
        else:
            out.append(int(v))
    return out


M = (1 << 64) - 1


def mix(h, x):
    h = ((h ^ (x & M)) * 0x9E3779B97F4A7C15) & M
    return h ^ (h >> 29)


def perform(fn, args):
    """What the C++ function of a generated module returns"""
    h = mix(0, fn["id"])
    for x in flat(args):
        h = mix(h, x)
    t = fn["ret"]
    if t is None:
        return None

    def leaf():
        nonlocal h
        h = mix(h, 77)
        if t[0] == "b":
            return bool(h >> 63)
        bits = 8 * t[1]
        if t[0] == "u":
            return h >> 64 - bits
        m = h >> 64 - bits + 1
        return -m if h & 1 else m

    return leaf() if t[2] is None else [leaf() for _ in range(t[2])]


def same(a, b):
    """Equality of decoded values, types included"""
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or b is None:
        return a is b
    return isinstance(a, int) and not isinstance(a, bool) and a == b


def index_bytes(kr, i):
    return i.to_bytes(index_size(len(kr["functions"])), "big" if kr["big"] else "little")
