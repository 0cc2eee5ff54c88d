"""NumPy's generator in chosen states, and the numbers ahead of a state."""
import struct
import numpy as np

MASK = 0xffffffff


def untemper(y):
    """The state word of which the Mersenne twister makes the output y."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(7):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & MASK
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & MASK


def set_stream(seed, words):
    """NumPy's generator in a state whose next outputs are the words."""
    np.random.seed(seed)
    st = list(np.random.get_state())
    if words:
        keys = np.random.randint(0, 1 << 32, 624, dtype='uint64').astype('uint32')
        keys[:len(words)] = [untemper(w) for w in words]
        st[1], st[2] = keys, 0
    else:
        np.random.rand(seed % 400)
        st = list(np.random.get_state())
    st[3], st[4] = 1, .25 + seed % 7         # a cached normal deviate
    np.random.set_state(tuple(st))


def ahead(old, new, limit):
    """The words ahead of the old state, and after how many of them the new state comes (-1: never)."""
    rs = np.random.RandomState()
    rs.set_state(old)
    out, used = [], 0 if same(old, new) else -1
    for k in range(limit):
        out.append(struct.unpack('<I', rs.bytes(4))[0])
        if used < 0 and same(rs.get_state(), new):
            used = k + 1
        if used >= 0 and k >= used + 3:
            break
    return out, used


def same(a, b):
    return a[2] == b[2] and bool((np.asarray(a[1]) == np.asarray(b[1])).all())
