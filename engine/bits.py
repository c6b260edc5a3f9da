"""Bit-provenance domain: integers as vectors of bits, each bit an OR-set of (symbol expression, bit) references."""
from lin import *

RANGE = {1: (0, 1), 8: (0, 255), 16: (-2 ** 15, 2 ** 15 - 1), 32: (-2 ** 31, 2 ** 31 - 1), 64: (-2 ** 63, 2 ** 63 - 1)}
ONEB = frozenset([('one',)])
ZB = frozenset()
# a bit is a frozenset of references (disjunction); ('one',) makes it constant 1


def maxbits(n):
    return n.bit_length()


def to_bits(s, v, w):
    """w bits of value v (Lin, canonical)"""
    v = s.red(v)
    if v.isconst():
        return tuple(ONEB if (v.c >> i) & 1 else ZB for i in range(w))
    if v.c == 0 and len(v.t) == 1:
        (k, a), = v.t.items()
        key = KEYS[k]
        if key[0] == 'bits' and a == 1:
            b = key[1]
            if len(b) >= w:
                return b[:w]
            return b + (b[-1] if key[2] else ZB,) * (w - len(b))
    # sum of disjoint bit fields?
    if v.c >= 0 and v.t and all(a > 0 and (a & (a - 1)) == 0 for a in v.t.values()) and (len(v.t) > 1 or v.c or list(v.t.values())[0] > 1):
        acc = list(to_bits(s, C(v.c), w))
        ok = True
        for k, a in v.t.items():
            sh = a.bit_length() - 1
            lo, hi = s.st.bounds(Lin({k: 1}, 0))
            if lo is None or lo < 0 or hi is None:
                ok = False
                break
            bb = to_bits(s, Lin({k: 1}, 0), 64)
            for i in range(maxbits(hi)):
                if i + sh < w and bb[i] != ZB:
                    if acc[i + sh] != ZB:
                        ok = False
                    acc[i + sh] = bb[i]
        if ok:
            return tuple(acc)
    # low byte + 256 * rest (e.g. a sign extended byte)
    if w > 8 and (v.c < 0 or v.c >= 256 or any(a % 256 == 0 for a in v.t.values())):
        lo8 = Lin({k: a for k, a in v.t.items() if a % 256}, v.c % 256)
        if lo8.t and s.st.ent(lo8) and s.st.ent(C(255) - lo8):
            hi = Lin({k: a // 256 for k, a in v.t.items() if a % 256 == 0}, v.c // 256)
            if hi.isconst():
                return to_bits(s, lo8, 8) + to_bits(s, hi, w - 8)
            if hi.c == 0 and len(hi.t) == 1:
                (k, a), = hi.t.items()
                key = KEYS[k]
                if a == -1 and key[0] == 'sgn' and s.red(key[1]) == lo8:
                    b = to_bits(s, lo8, 8)
                    return b + (frozenset([(lo8, 7)]),) * (w - 8)
    lo, hi = s.st.bounds(v)
    top = w
    if lo is not None and lo >= 0:
        if hi is None or hi >= 2 ** 31:
            # look for an entailed bound
            for q in (8, 16, 28, 30, 31):
                if q < w and s.st.ent(C(2 ** q - 1) - v):
                    hi = 2 ** q - 1
                    break
        elif hi >= 2 ** 28 and len(v.t) > 1 and s.st.ent(C(2 ** 28 - 1) - v):
            hi = 2 ** 28 - 1
        if hi == 255 and v.c == 0 and len(v.t) == 1 and any(next(iter(v.t)) in e.t for e in s.st.ine):
            for q in (1, 6, 7):
                if s.st.ent(C(2 ** q - 1) - v):
                    hi = 2 ** q - 1
                    break
            if hi == 255 and s.st.ent(v - 128):
                # the leading bits are ones
                b6 = ONEB if s.st.ent(v - 192) else ZB if s.st.ent(C(191) - v) else frozenset([(v, 6)])
                return tuple(frozenset([(v, i)]) if i < 6 else b6 if i == 6 else ONEB if i < 8 else ZB for i in range(w))
            if hi == 127 and s.st.ent(v - 64):
                return tuple(frozenset([(v, i)]) if i < 6 else ONEB if i < 7 else ZB for i in range(w))
        if hi is not None:
            top = min(w, maxbits(hi))
    elif s.st.ent(v):
        for q in (8, 16, 28, 30, 31):
            if q < w and s.st.ent(C(2 ** q - 1) - v):
                top = q
                break
    return tuple(frozenset([(v, i)]) if i < top else ZB for i in range(w))


def from_bits(s, b, signed=True):
    """value of a bit vector (canonical: signed for widths > 8)"""
    w = len(b)
    if all(x == ZB or x == ONEB or ('one',) in x for x in b):
        n = sum(1 << i for i, x in enumerate(b) if x)
        if signed and w > 8 and n >= 1 << (w - 1):
            n -= 1 << w
        return C(n)
    # identity: all bits of one expression
    refs = [next(iter(x)) for x in b if len(x) == 1]
    if refs and refs[0][0] != 'one':
        v = refs[0][0]
        same = to_bits(s, v, w)
        if same == tuple(b):
            if w > 8 or s.st.ent(v) and s.st.ent(C((1 << w) - 1) - v):
                return v
    top = max(i for i, x in enumerate(b) if x) + 1
    neg = signed and w > 8 and top == w
    if neg:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    else:
        lo, hi = sum(1 << i for i, x in enumerate(b) if ('one',) in x), sum(1 << i for i, x in enumerate(b) if x)
    if not neg:
        nz = [i for i, x in enumerate(b) if x]
        if len(nz) == 1:
            # one bit: a number between 0 and 1, in its place
            i = nz[0]
            return S(('bits', (b[i],), False), 0, 1) * (1 << i)
    key = ('bits', tuple(b) if neg else tuple(b[:top]), neg)
    return S(key, lo, hi)


def byte_of_value(s, v, width, k):
    """k-th byte in memory (little endian) of a scalar"""
    if not isinstance(v, Lin):
        return s.fresh('ptrbyte', 0, 255)
    if width == 1:
        return v
    b = to_bits(s, v, width * 8)
    return from_bits(s, b[8 * k:8 * k + 8], False)


def from_bytes_le(s, vals):
    b = ()
    for v in vals:
        b = b + to_bits(s, v, 8)
    return from_bits(s, b)


def shift(b, k, w, arith=False):
    """k>0 left, k<0 right"""
    if k >= 0:
        return ((ZB,) * min(k, w) + b)[:w]
    k = -k
    fill = b[-1] if arith else ZB
    return (b[k:] + (fill,) * k)[:w]


def b_or(x, y):
    out = []
    for a, c in zip(x, y):
        if ('one',) in a or ('one',) in c:
            out.append(ONEB)
        else:
            out.append(a | c)
    return tuple(out)


def b_and(x, y):
    """None if not representable"""
    out = []
    for i, (a, c) in enumerate(zip(x, y)):
        if a == ZB or c == ZB:
            out.append(ZB)
        elif a == ONEB:
            out.append(c)
        elif c == ONEB or a == c:
            out.append(a)
        else:
            out.append(frozenset([(('and', a, c), 0)]))
    return tuple(out)


def b_xor(x, y):
    out = []
    for a, c in zip(x, y):
        if a == ZB:
            out.append(c)
        elif c == ZB:
            out.append(a)
        elif a == ONEB and c == ONEB or a == c:
            out.append(ZB)
        else:
            out.append(frozenset([(('xor', a, c), 0)]))
    return tuple(out)


def drop_msb(b):
    """the bits as they are when every input byte is synchsafe (bit 7 clear)"""
    out = []
    for x in b:
        out.append(frozenset(r for r in x if not (isinstance(r[0], Lin) and r[1] == 7)))
    return tuple(out)


def norm_bits(s, b):
    """the bits with their references reduced as far as the state allows"""
    out = []
    memo = {}
    for x in b:
        y = frozenset()
        for r in x:
            e = r[0]
            if isinstance(e, Lin):
                v = memo.get(e)
                if v is None:
                    v = memo[e] = to_bits(s, e, 64) if s.st.ent(e) else to_bits(s, e, 32)
                if r[1] < len(v):
                    y = y | v[r[1]]
                    continue
            y = y | frozenset([r])
        out.append(ONEB if ('one',) in y else y)
    return tuple(out)


_refs = {}


def refs_of(k):
    """symbols a bits symbol is composed of"""
    r = _refs.get(k)
    if r is None:
        r = set()
        for x in KEYS[k][1]:
            for e in x:
                if isinstance(e[0], Lin):
                    r.update(e[0].t)
        _refs[k] = r
    return r


def bits_same(s, x, y, w):
    """the two values have the same w low bits for every input"""
    a, b = norm_bits(s, to_bits(s, x, w)), norm_bits(s, to_bits(s, y, w))
    return a == b


def resync(s, changed=None):
    """after bytes were found equal (or bounded): values composed of them are equal too"""
    for k in sorted(s.st.syms()):
        key = KEYS[k]
        if key[0] != 'bits' or changed is not None and not (refs_of(k) & changed):
            continue
        n = norm_bits(s, key[1])
        if n == key[1]:
            continue
        w = 32 if len(n) <= 32 else 64
        n = n + ((n[-1] if key[2] else ZB),) * (w - len(n))
        if not s.st.add_eq(Lin({k: 1}, 0) - from_bits(s, n)):
            return False
    return True
