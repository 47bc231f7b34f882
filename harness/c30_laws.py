"""C30's laws: the extension modules against numpy. Each law takes a generator G; an exception is a failure."""
import importlib.util
import math
import os
import sys
import traceback

import numpy as np

MODS = os.environ["PBT_MODULES"] + "/python/src/"
_loaded = {}


def mod(name):
    """An extension module by its place, e.g. 'math/_matvec_d'. (The package around them is written for Python 2.)"""
    if name not in _loaded:
        spec = importlib.util.spec_from_file_location("ovxx_" + name.replace("/", "_") + "." + name.rsplit("/", 1)[-1], MODS + name + ".so")
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _loaded[name] = m
    return _loaded[name]


mod("support")
mod("types")
MT, ST = mod("math/types"), mod("signal/types")
DT = {"b": np.bool_, "i": np.int32, "f": np.float32, "d": np.float64, "cf": np.complex64, "cd": np.complex128}
REAL = {"cf": "f", "cd": "d"}
for _k in DT:
    mod("_block_" + _k)


class Broken(Exception):
    pass


def need(cond, text):
    if not cond:
        raise Broken(text() if callable(text) else text)


def explain(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    where = ["%s:%d" % (f.name, f.lineno) for f in tb if f.filename.endswith("c30_laws.py")][-3:]
    return "%s: %s [%s]" % (type(ex).__name__, str(ex)[:600], " < ".join(reversed(where)))


class G:
    def __init__(self, g):
        self.g = g

    def draw(self, n):
        return self.g.draw(int(n))

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def flip(self, num=1, den=2):
        return self.draw(den) >= den - num

    def pick(self, l):
        l = list(l)
        return l[self.draw(len(l))]

    def len(self, lo, hi):
        k = self.draw(8)
        if k < 5:
            return lo + self.draw(min(8, hi - lo + 1))
        if k < 7:
            return lo + self.draw(min(24, hi - lo + 1))
        return self.range(lo, hi)

    def rng(self):
        return np.random.RandomState(self.draw(1 << 16))

    def label(self, s):
        self.g.label(s)

    def note(self, s):
        if self.g.noting():
            self.g.note(s)

    def nontrivial(self):
        self.g.nontrivial()


def run(name, g):
    return globals()["law_" + name](G(g))


# ------------------------------------------------------------------------------------ data and views
def data(r, shape, k, lo=-9, hi=9):
    """Small integers: sums and products of a few are exact in every type."""
    a = r.randint(lo, hi + 1, shape)
    if k == "b":
        return (a & 1).astype(bool)
    if k in REAL:
        return (a + 1j * r.randint(lo, hi + 1, shape)).astype(DT[k])
    return a.astype(DT[k])


def reals(r, shape, k, lo=-2.0, hi=2.0):
    a = r.uniform(lo, hi, shape)
    if k in REAL:
        a = a + 1j * r.uniform(lo, hi, shape)
    return a.astype(DT[k])


def make(k, a):
    return mod("_block_" + k).block(np.ascontiguousarray(a))


def read(b, shape=None):
    """A block's elements, by get(): what the block itself says they are."""
    s = tuple(b.shape) if shape is None else shape
    k = np.dtype(b.dtype)
    out = np.empty(s, k)
    if len(s) == 1:
        for i in range(s[0]):
            out[i] = b.get(i)
    else:
        for i in range(s[0]):
            for j in range(s[1]):
                out[i, j] = b.get(i, j)
    return out


def a_slice(g, n):
    """A slice of n elements, not empty; any step."""
    step = g.pick([1, 1, 1, 2, 3, -1, -2])
    lo = g.range(0, n - 1)
    cnt = g.range(1, (n - 1 - lo) // abs(step) + 1)
    if step > 0:
        stop = lo + (cnt - 1) * step + 1
        if g.flip(1, 4) and stop + step > n:
            return slice(lo or None, None, step)
        return slice(lo, stop, step)
    hi = lo + (cnt - 1) * -step
    stop = lo - 1
    return slice(hi, stop if stop >= 0 else None, step)


def part(g, b, k):
    """b = (block, array): a part of it, with the same part of the array."""
    blk, a = b
    m = mod("_block_" + k)
    if a.ndim == 1:
        s = a_slice(g, a.shape[0])
        return m.subblock(blk, s), a[s]
    s, t = a_slice(g, a.shape[0]), a_slice(g, a.shape[1])
    return m.subblock(blk, s, t), a[s, t]


def operand(g, k, shape, values, plain=False):
    """A block holding `values`: whole, or a part of a larger one, taken in one or two steps."""
    if plain or g.flip(1, 2):
        return make(k, values.astype(DT[k]))
    g.label("operand is a sub-block")
    steps = [g.pick([1, 2, 3, -1, -2]) for _ in shape]
    offs = [g.range(0, 2) for _ in shape]
    # the parent is larger by offset and stride
    full = [o + (n - 1) * abs(s) + 1 + g.range(0, 2) for o, n, s in zip(offs, shape, steps)]
    parent = np.full(full, 77, DT[k]) if k != "b" else np.ones(full, bool)
    sl = []
    for o, n, s in zip(offs, shape, steps):
        last = o + (n - 1) * abs(s)
        sl.append(slice(o, last + 1, s) if s > 0 else slice(last, o - 1 if o else None, s))
    parent[tuple(sl)] = values
    m = mod("_block_" + k)
    blk = make(k, parent)
    if g.flip(1, 4):
        # a part of the whole part
        blk = m.subblock(blk, *[slice(None)] * len(full))
    return m.subblock(blk, *sl)


def close(got, want, k, scale=None, factor=64.0):
    want = np.asarray(want)
    eps = np.finfo(DT[k]).eps
    s = float(np.max(np.abs(want))) if scale is None and want.size else (scale or 0.0)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= factor * eps * max(s, 1e-30) + 0.0))


def exact(got, want):
    want = np.asarray(want)
    return got.shape == want.shape and bool(np.array_equal(got, want.astype(got.dtype), equal_nan=got.dtype.kind in "fc"))


def show(a):
    return repr(np.asarray(a).tolist())[:300]


# ------------------------------------------------------------------------------------ blocks
def idiv(b, o):
    """b /= o: Boost.Python calls it __idiv__ also where Python 3 wants __itruediv__."""
    return (b.__itruediv__ if hasattr(b, "__itruediv__") else b.__idiv__)(o)


def law_block_history(g):
    """Blocks and the parts made of them, through any history of operations, are what numpy's views are."""
    k = g.pick(["d", "f", "cd", "cf", "i"])
    r = g.rng()
    live = []    # (kind, block, array view)
    m0 = mod("_block_" + k)

    def root():
        if g.flip():
            n = g.len(1, 40)
            a = data(r, n, k)
        else:
            a = data(r, (g.len(1, 12), g.len(1, 12)), k)
        live.append((k, make(k, a), a.copy()))
        g.note("b%d=root%s" % (len(live) - 1, a.shape))

    root()
    steps = g.range(1, 14)
    parts = writes = 0
    # keep magnitudes small so that all arithmetic stays exact
    def tame(a):
        return a.size == 0 or float(np.max(np.abs(a))) < 1000

    for _ in range(steps):
        i = g.draw(len(live))
        kk, b, a = live[i]
        m = mod("_block_" + kk)
        op = g.pick(["sub", "put", "row", "col", "diag", "part", "assign", "fill", "iadd", "isub", "imul", "idiv", "copy", "neg", "eq", "array", "write", "root", "get", "drop", "array2"])
        if op == "root" and len(live) < 6:
            root()
        elif op == "sub":
            nb, na = part(g, (b, a), kk)
            live.append((kk, nb, na))
            parts += 1
            g.note("b%d=part of b%d, %s" % (len(live) - 1, i, na.shape))
        elif op in ("row", "col", "diag") and a.ndim == 2:
            if op == "diag":
                nb, na = b.diag(), a.diagonal()
                na = np.lib.stride_tricks.as_strided(a, (min(a.shape),), (a.strides[0] + a.strides[1],))
            elif op == "row":
                j = g.range(-a.shape[0], a.shape[0] - 1)
                nb, na = b.row(j), a[j]
            else:
                j = g.range(-a.shape[1], a.shape[1] - 1)
                nb, na = b.col(j), a[:, j]
            live.append((kk, nb, na))
            parts += 1
            g.note("b%d=%s of b%d" % (len(live) - 1, op, i))
        elif op == "part" and kk in REAL:
            re = g.flip()
            live.append((REAL[kk], b.real() if re else b.imag(), a.real if re else a.imag))
            parts += 1
            g.note("b%d=%s of b%d" % (len(live) - 1, "real" if re else "imag", i))
        elif op == "put":
            v = data(r, (), kk)[()]
            ix = tuple(g.draw(n) for n in a.shape)
            b.put(*ix, v.item())
            a[ix] = v
            writes += 1
            g.note("b%d.put%s" % (i, ix + (v,)))
        elif op == "get":
            ix = tuple(g.draw(n) for n in a.shape)
            need(b.get(*ix) == a[ix], lambda: "b%d.get%s is %s, not %s" % (i, ix, b.get(*ix), a[ix]))
        elif op in ("assign", "iadd", "isub", "imul", "idiv") and g.flip(3, 4) or op == "write":
            c = data(r, a.shape, kk, 1, 4)
            if op == "imul" and not tame(a):
                continue
            if op == "idiv":
                # exact quotients only
                c = np.ones(a.shape, DT[kk]) if kk == "i" else np.where(c.real > 2, 2, 1).astype(DT[kk])
                if not tame(1 / np.where(a == 0, 1, a) * 0 + a):
                    continue
            o = operand(g, kk, a.shape, c)
            if op == "assign":
                b.assign(o)
                a[...] = c
            elif op == "write":
                np.asarray(b)[...] = c
                a[...] = c
            elif op == "iadd":
                b += o
                a += c
            elif op == "isub":
                b -= o
                a -= c
            elif op == "imul":
                b *= o
                a *= c
            else:
                b = idiv(b, o)
                a[...] = (a / c) if kk != "i" else a
            writes += 1
            g.note("b%d %s block" % (i, op))
        elif op in ("fill", "iadd", "isub", "imul", "idiv"):
            v = g.pick([0, 1, 2, 3, -2])
            if op == "imul" and not tame(a):
                continue
            if op == "idiv":
                v = 1 if kk == "i" else 2
            s = v if kk not in REAL else complex(v, 0 if op in ("idiv", "imul") else 1)
            if kk in "fd":
                s = float(s)
            if op == "fill":
                b.assign(s)
                a[...] = s
            elif op == "iadd":
                b += s
                a += DT[kk](s)
            elif op == "isub":
                b -= s
                a -= DT[kk](s)
            elif op == "imul":
                b *= s
                a *= DT[kk](s)
            else:
                b = idiv(b, s)
                a[...] = a / s if kk != "i" else a
            writes += 1
            g.note("b%d %s %s" % (i, op, s))
        elif op == "copy":
            live.append((kk, b.copy(), a.copy()))
            g.note("b%d=copy of b%d" % (len(live) - 1, i))
        elif op == "neg":
            live.append((kk, -b, -a))
            g.note("b%d=-b%d" % (len(live) - 1, i))
        elif op == "eq":
            c = np.where(r.randint(0, 2, a.shape) == 1, a, a + DT[kk](1))
            e = b == operand(g, kk, a.shape, c)
            need(exact(read(e), a == c), lambda: "b%d == block is %s, not %s" % (i, show(read(e)), show(a == c)))
            g.note("b%d == block" % i)
        elif op in ("array", "array2"):
            x = np.asarray(b)
            need(x.dtype == np.dtype(DT[kk]) and exact(x, a), lambda: "array of b%d is %s, not %s" % (i, show(x), show(a)))
        elif op == "drop" and len(live) > 1:
            # parts stay valid without the block they were made of
            del live[i]
            b = None
            g.note("drop b%d" % i)
        for j, (kj, bj, aj) in enumerate(live):
            need(tuple(bj.shape) == aj.shape and bj.size() == aj.size, lambda: "b%d: shape %s, not %s" % (j, bj.shape, aj.shape))
            got = read(bj)
            need(exact(got, aj), lambda: "b%d (%s) holds %s, not %s" % (j, kj, show(got), show(aj)))
    if parts and writes:
        g.nontrivial()


def law_block_make(g):
    """A block made of a length, a shape and value or an array (of any layout) has that shape and those elements; it is a copy."""
    k = g.pick(["d", "f", "cd", "cf", "i", "b"])
    m = mod("_block_" + k)
    r = g.rng()
    shape = (g.len(1, 60),) if g.flip() else (g.len(1, 12), g.len(1, 12))
    how = g.draw(4)
    g.note("%s %s how=%d" % (k, shape, how))
    if how == 0:
        v = data(r, (), k)[()].item()
        # block(2, 3) of integers is a shape: the modules' block() cannot tell a length and an integer value from it
        if len(shape) == 1 and k in "ib":
            shape = shape + (g.len(1, 9),)
        b = m.block(*shape, v)
        need(exact(read(b), np.full(shape, v, DT[k])), lambda: "filled with %s: %s" % (v, show(read(b))))
    elif how == 1:
        b = m.block(*shape)
        need(tuple(b.shape) == shape and b.size() == int(np.prod(shape)), lambda: "shape %s" % (b.shape,))
        b.assign(data(r, (), k)[()].item())
    else:
        a = data(r, [2 * n + 1 for n in shape], k)
        a = a[tuple(slice(0, 2 * n, 2) for n in shape)] if how == 2 else np.ascontiguousarray(a[tuple(slice(0, n) for n in shape)])
        if g.flip():
            a = a.T
            g.label("transposed array")
        if g.flip(1, 3):
            a = a[::-1]
            g.label("reversed array")
        b = m.block(a)
        need(exact(read(b), a), lambda: "made of %s: %s" % (show(a), show(read(b))))
        keep = a.copy()
        b.assign(keep.flat[0].item())
        need(exact(a, keep), "assigning to the block has changed the array")
        b = m.block(a)
        x = np.asarray(b)
        del b
        need(exact(x, keep), lambda: "the array outlives the block: %s, not %s" % (show(x), show(keep)))
        b = m.block(a)
    need(np.dtype(b.dtype) == np.dtype(DT[k]), lambda: "dtype %s" % b.dtype)
    for d in range(len(shape)):
        need(b.size(len(shape), d) == tuple(b.shape)[d], "size(dim, d) is not shape[d]")
    if int(np.prod(shape)) > 1:
        g.nontrivial()


def raises(f, kinds):
    try:
        f()
    except kinds:
        return True
    except Exception as e:
        raise Broken("%s raised instead: %s" % (type(e).__name__, e))
    return False


def law_block_errors(g):
    """What cannot be done is refused with an exception; nothing is changed and nothing out of bounds is touched."""
    k = g.pick(["d", "f", "cd", "cf", "i"])
    r = g.rng()
    m = mod("_block_" + k)
    two = g.flip()
    shape = (g.len(1, 9), g.len(1, 9)) if two else (g.len(1, 30),)
    a = data(r, shape, k)
    b = make(k, a)
    what = g.draw(11)
    g.note("%s %s error=%d" % (k, shape, what))
    if what == 0:
        ix = [g.draw(n) for n in shape]
        d = g.draw(len(ix))
        ix[d] = shape[d] + g.draw(50)
        need(raises(lambda: b.get(*ix), RuntimeError), "get%s of shape %s" % (tuple(ix), shape))
    elif what == 1:
        ix = [g.draw(n) for n in shape]
        d = g.draw(len(ix))
        ix[d] = shape[d] + g.draw(50)
        need(raises(lambda: b.put(*ix, a.flat[0].item()), RuntimeError), "put%s of shape %s" % (tuple(ix), shape))
    elif what == 2:
        other = g.pick([x for x in DT if x != k])
        need(raises(lambda: m.block(np.ones(shape, DT[other])), TypeError), "block(array of %s)" % other)
    elif what == 3:
        need(raises(lambda: m.block(np.ones((2, 2, 2), DT[k])), ValueError), "block(array of three dimensions)")
    elif what == 4:
        need(raises(lambda: m.block("x"), TypeError), "block('x')")
    elif what == 5:
        other = g.pick([x for x in ("d", "f", "i", "cd") if x != k])
        need(raises(lambda: b.assign(make(other, data(r, shape, other))), TypeError), "assign a block of %s" % other)
    elif what == 6 and two:
        c = g.flip()
        n = shape[1 if c else 0]
        j = g.pick([n, n + 1, n + 40, -n - 1, -n - 30])
        need(raises(lambda: (b.col if c else b.row)(j), (RuntimeError, IndexError)), "%s(%d) of shape %s" % ("col" if c else "row", j, shape))
    elif what == 7:
        bad, kind = g.pick([(slice(None, None, 0), ValueError), (slice("a", None), TypeError), (slice(1, 2.5), TypeError)])
        ss = [bad] + [slice(None)] * (len(shape) - 1)
        if g.flip():
            ss.reverse()
        need(raises(lambda: m.subblock(b, *ss), kind), "subblock %s" % (ss,))
    elif what == 8:
        # an operand that is too small
        small = list(shape)
        d = g.draw(len(small))
        small[d] -= g.range(1, small[d])
        if min(small) == 0:
            return False
        o = operand(g, k, tuple(small), data(r, tuple(small), k))
        op = g.pick(["add", "mul", "eq"])
        if k == "i" or op == "eq":
            need(raises(lambda: b.__eq__(o), RuntimeError), "== of shapes %s and %s" % (shape, small))
        else:
            e = mod("math/_elementwise_" + k)
            need(raises(lambda: getattr(e, op)(b, o), RuntimeError), "%s of shapes %s and %s" % (op, shape, small))
    else:
        need(raises(lambda: b.assign(make(k, data(r, (3, 3) if not two else (4,), k))), TypeError), "assign a block of another dimension")
    need(exact(read(b), a), lambda: "the block has changed: %s, not %s" % (show(read(b)), show(a)))
    g.nontrivial()


# ------------------------------------------------------------------------------------ elementwise functions
A = (-2.0, 2.0)
P = (0.25, 3.0)
U = (-0.98, 0.98)
Q = (-1.2, 1.2)
N = None    # small integers; exact
REAL_FN = {
    "add": (2, N, lambda a, b: a + b), "sub": (2, N, lambda a, b: a - b), "mul": (2, N, lambda a, b: a * b), "div": (2, P, lambda a, b: a / b),
    "acos": (1, U, np.arccos), "asin": (1, U, np.arcsin), "atan": (1, A, np.arctan), "atan2": (2, P, np.arctan2), "ceil": (1, A, np.ceil), "floor": (1, A, np.floor),
    "cos": (1, A, np.cos), "cosh": (1, A, np.cosh), "sin": (1, A, np.sin), "sinh": (1, A, np.sinh), "tan": (1, Q, np.tan), "tanh": (1, A, np.tanh),
    "exp": (1, A, np.exp), "exp10": (1, A, lambda a: 10.0 ** a), "log": (1, P, np.log), "log10": (1, P, np.log10), "sqrt": (1, P, np.sqrt), "rsqrt": (1, P, lambda a: 1 / np.sqrt(a)), "recip": (1, P, lambda a: 1 / a),
    "fmod": (2, P, np.fmod), "hypot": (2, P, np.hypot), "pow": (2, P, np.power), "sq": (1, N, lambda a: a * a), "neg": (1, N, lambda a: -a),
    "euler": (1, A, lambda a: np.exp(1j * a)), "mag": (1, N, np.abs), "magsq": (1, N, lambda a: a * a),
    "max": (2, N, np.maximum), "min": (2, N, np.minimum), "maxmg": (2, N, lambda a, b: np.maximum(abs(a), abs(b))), "minmg": (2, N, lambda a, b: np.minimum(abs(a), abs(b))),
    "maxmgsq": (2, N, lambda a, b: np.maximum(a * a, b * b)), "minmgsq": (2, N, lambda a, b: np.minimum(a * a, b * b)),
    "eq": (2, N, lambda a, b: a == b), "ne": (2, N, lambda a, b: a != b), "lt": (2, N, lambda a, b: a < b), "le": (2, N, lambda a, b: a <= b), "gt": (2, N, lambda a, b: a > b), "ge": (2, N, lambda a, b: a >= b),
    "land": (2, N, np.logical_and), "lor": (2, N, np.logical_or), "lxor": (2, N, np.logical_xor), "lnot": (1, N, np.logical_not),
    "am": (3, N, lambda a, b, c: (a + b) * c), "ma": (3, N, lambda a, b, c: a * b + c), "msb": (3, N, lambda a, b, c: a * b - c), "sbm": (3, N, lambda a, b, c: (a - b) * c),
    "expoavg": (3, A, lambda a, b, c: a * b + (1 - a) * c), "ite": (3, N, lambda a, b, c: np.where(a != 0, b, c)),
    "is_nan": (1, "special", np.isnan), "is_finite": (1, "special", np.isfinite), "is_normal": (1, "special", lambda a: np.isfinite(a) & (np.abs(a) >= np.finfo(a.dtype).tiny)),
}
COMPLEX_FN = {
    "add": (2, N, lambda a, b: a + b), "sub": (2, N, lambda a, b: a - b), "mul": (2, N, lambda a, b: a * b), "div": (2, P, lambda a, b: a / b), "jmul": (2, N, lambda a, b: a * np.conj(b)),
    "arg": (1, P, np.angle), "conj": (1, N, np.conj), "real": (1, N, np.real), "imag": (1, N, np.imag), "neg": (1, N, lambda a: -a), "mag": (1, P, np.abs), "magsq": (1, N, lambda a: a.real ** 2 + a.imag ** 2),
    "cos": (1, A, np.cos), "cosh": (1, A, np.cosh), "sin": (1, A, np.sin), "sinh": (1, A, np.sinh), "tan": (1, Q, np.tan), "tanh": (1, Q, np.tanh), "exp": (1, A, np.exp),
    "log": (1, P, np.log), "log10": (1, P, np.log10), "sqrt": (1, P, np.sqrt), "rsqrt": (1, P, lambda a: 1 / np.sqrt(a)), "recip": (1, P, lambda a: 1 / a), "pow": (2, P, np.power), "sq": (1, N, lambda a: a * a),
    "maxmg": (2, P, lambda a, b: np.maximum(abs(a), abs(b))), "maxmgsq": (2, N, lambda a, b: np.maximum(a.real ** 2 + a.imag ** 2, b.real ** 2 + b.imag ** 2)),
    "minmg": (2, P, lambda a, b: np.minimum(abs(a), abs(b))), "minmgsq": (2, N, lambda a, b: np.minimum(a.real ** 2 + a.imag ** 2, b.real ** 2 + b.imag ** 2)),
    "eq": (2, N, lambda a, b: a == b), "ne": (2, N, lambda a, b: a != b),
    "am": (3, N, lambda a, b, c: (a + b) * c), "ma": (3, N, lambda a, b, c: a * b + c), "msb": (3, N, lambda a, b, c: a * b - c), "sbm": (3, N, lambda a, b, c: (a - b) * c), "expoavg": (3, A, lambda a, b, c: a * b + (1 - a) * c),
    "is_nan": (1, "special", np.isnan), "is_finite": (1, "special", np.isfinite),
}


def a_shape(g, n=40, m=10):
    return (g.len(1, n),) if g.flip() else (g.len(1, m), g.len(1, m))


def elementwise(g, k, table):
    m = mod("math/_elementwise_" + k)
    name = g.pick(sorted(table))
    n, domain, f = table[name]
    if not hasattr(m, name):
        g.label("not exported: " + name)
        return False
    shape = a_shape(g)
    r = g.rng()
    args = []
    for _ in range(n):
        if domain is None:
            a = data(r, shape, k)
            if name == "ite":
                a = np.where(r.randint(0, 2, shape) == 1, a, np.zeros((), DT[k])).astype(DT[k])
            if name in ("eq", "ne", "le", "ge", "lt", "gt", "land", "lor", "lxor", "lnot"):
                a = data(r, shape, k, -1, 1)
        elif domain == "special":
            a = data(r, shape, k)
            pool = np.array([0, 1, np.nan, np.inf, -np.inf, np.finfo(DT[k]).tiny, np.finfo(DT[k]).tiny / 4, np.finfo(DT[k]).max], DT[REAL.get(k, k)])
            a = pool[r.randint(0, len(pool), shape)].astype(DT[k])
            if k in REAL:
                a = a.copy()
                a.imag = pool[r.randint(0, len(pool), shape)]
        else:
            a = reals(r, shape, k, *domain)
        args.append(a)
    ops = [operand(g, k, shape, a) for a in args]
    g.note("%s %s %s" % (name, k, shape))
    g.label(name)
    got = read(getattr(m, name)(*ops))
    with np.errstate(all="ignore"):
        want = f(*args)
    if domain is None or domain == "special" or name in ("ceil", "floor"):
        need(exact(got, want), lambda: "%s(%s) is %s, not %s" % (name, ", ".join(show(a) for a in args), show(got), show(want)))
    else:
        up = f(*[a.astype(np.complex128 if k in REAL else np.float64) for a in args])
        need(close(got, up, k), lambda: "%s(%s) is %s, not %s" % (name, ", ".join(show(a) for a in args), show(got), show(up)))
    need(np.dtype(got.dtype).kind == np.asarray(want).dtype.kind, lambda: "%s gives %s, not %s" % (name, got.dtype, np.asarray(want).dtype))
    for o, a in zip(ops, args):
        need(exact(read(o), a), lambda: "%s has changed an argument: %s, not %s" % (name, show(read(o)), show(a)))
    if int(np.prod(shape)) > 1:
        g.nontrivial()


def law_elementwise_real(g):
    return elementwise(g, g.pick(["d", "f"]), REAL_FN)


def law_elementwise_complex(g):
    return elementwise(g, g.pick(["cd", "cf"]), COMPLEX_FN)


# ------------------------------------------------------------------------------------ matrices, reductions, selection
def law_matvec(g):
    k = g.pick(["d", "f", "cd", "cf"])
    m = mod("math/_matvec_" + k)
    r = g.rng()
    a, b, c = g.len(1, 14), g.len(1, 14), g.len(1, 14)
    what = g.pick(["dot", "trans", "herm", "vm", "mv", "mm", "vmmul0", "vmmul1"])
    g.note("%s %s %dx%dx%d" % (what, k, a, b, c))
    g.label(what)
    X, Y, v, w = data(r, (a, b), k), data(r, (b, c), k), data(r, b, k), data(r, b, k)
    if what == "dot":
        got, want = np.array(m.dot(operand(g, k, v.shape, v), operand(g, k, w.shape, w))).astype(DT[k]), v @ w
    elif what == "trans":
        got, want = read(m.trans(operand(g, k, X.shape, X))), X.T
    elif what == "herm":
        if k not in REAL:
            return False
        got, want = read(m.herm(operand(g, k, X.shape, X))), X.conj().T
    elif what == "vm":
        got, want = read(m.prod(operand(g, k, v.shape, v), operand(g, k, Y.shape, Y))), v @ Y
    elif what == "mv":
        got, want = read(m.prod(operand(g, k, X.shape, X), operand(g, k, v.shape, v))), X @ v
    elif what == "mm":
        got, want = read(m.prod(operand(g, k, X.shape, X), operand(g, k, Y.shape, Y))), X @ Y
    elif what == "vmmul0":
        got, want = read(m.vmmul(0, operand(g, k, v.shape, v), operand(g, k, X.shape, X))), v[None, :] * X
    else:
        got, want = read(m.vmmul(1, operand(g, k, v.shape, v), operand(g, k, Y.shape, Y))), v[:, None] * Y
    need(exact(got, want), lambda: "%s is %s, not %s" % (what, show(got), show(want)))
    if b > 1:
        g.nontrivial()


def law_reductions(g):
    k = g.pick(["d", "f"])
    m = mod("math/_reductions_" + k)
    shape = a_shape(g)
    a = data(g.rng(), shape, k)
    o = operand(g, k, shape, a)
    what = g.pick(["sumval", "meanval", "maxval", "minval"])
    g.note("%s %s %s" % (what, k, shape))
    r = getattr(m, what)(o)
    if what == "sumval":
        need(r == a.sum(), lambda: "the sum of %s is %s, not %s" % (show(a), r, a.sum()))
    elif what == "meanval":
        w = float(a.astype(float).mean())
        need(abs(r - w) <= 16 * np.finfo(DT[k]).eps * max(1.0, abs(w)), lambda: "the mean of %s is %s, not %s" % (show(a), r, w))
    else:
        w = a.max() if what == "maxval" else a.min()
        v, i = r
        need(v == w, lambda: "%s of %s is %s, not %s" % (what, show(a), v, w))
        i = (i,) if a.ndim == 1 else tuple(i)
        need(all(0 <= x < n for x, n in zip(i, shape)) and a[i] == w, lambda: "%s of %s is at %s" % (what, show(a), i))
    if a.size > 1:
        g.nontrivial()


def law_cast(g):
    m = mod("_cast")
    k = g.pick(["i", "f", "d"])
    shape = a_shape(g)
    a = data(g.rng(), shape, k) if k == "i" or g.flip() else reals(g.rng(), shape, k, -100, 100)
    t, to = g.pick([(float, "d"), (complex, "cd"), (np.float32, "f"), (np.complex64, "cf"), (np.float64, "d"), (int, "i")])
    g.note("%s to %s %s" % (k, to, shape))
    g.label("%s to %s" % (k, to))
    with np.errstate(all="ignore"):
        want = a.astype(DT[to])
    got = m.as_type(t, operand(g, k, shape, a))
    need(np.dtype(got.dtype) == np.dtype(DT[to]), lambda: "dtype %s" % got.dtype)
    need(exact(read(got), want), lambda: "%s as %s is %s, not %s" % (show(a), to, show(read(got)), show(want)))
    g.nontrivial()


def law_clip(g):
    k = g.pick(["d", "f"])
    m = mod("selgen/_clip_" + k)
    shape = a_shape(g)
    r = g.rng()
    a = data(r, shape, k)
    t = sorted(x + 0.5 for x in (g.range(-10, 9), g.range(-10, 9), g.range(-10, 9)))
    c1, c2 = float(g.range(-30, 30)), float(g.range(-30, 30))
    out = operand(g, k, shape, data(r, shape, k))
    o = operand(g, k, shape, a)
    if g.flip():
        m.clip(o, out, t[0], t[2], c1, c2)
        want = np.where(a <= t[0], c1, np.where(a < t[2], a, c2))
        g.note("clip %s %s" % (t, (c1, c2)))
    else:
        m.invclip(o, out, t[0], t[1], t[2], c1, c2)
        want = np.where(a < t[0], a, np.where(a < t[1], c1, np.where(a <= t[2], c2, a)))
        g.note("invclip %s %s" % (t, (c1, c2)))
    need(exact(read(out), want), lambda: "of %s is %s, not %s" % (show(a), show(read(out)), show(want)))
    need(exact(read(o), a), "the input has changed")
    g.nontrivial()


# ------------------------------------------------------------------------------------ signal processing
def law_freqswap(g):
    k = g.pick(["d", "f"])
    m = mod("signal/_freqswap_" + k)
    shape = a_shape(g)
    a = data(g.rng(), shape, k)
    o, out = operand(g, k, shape, a), operand(g, k, shape, np.zeros(shape, DT[k]))
    g.note("%s %s" % (k, shape))
    m.freqswap(o, out)
    need(exact(read(out), np.fft.fftshift(a)), lambda: "of %s is %s" % (show(a), show(read(out))))
    need(exact(read(o), a), "the input has changed")
    if a.size > 2:
        g.nontrivial()


def law_fft(g):
    k = g.pick(["d", "f", "cd", "cf"])
    m = mod("signal/_fft_" + k)
    r = g.rng()
    n = g.len(1, 70)
    s = g.pick([1.0, 0.5, 1.0 / n, -2.0])
    inv = g.flip()
    calls, hint = g.pick([0, 0, 1, 15]), g.pick([ST.alg_hint.time, ST.alg_hint.space, ST.alg_hint.noise])
    ck = k if k in REAL else "c" + k
    if k not in REAL and n % 2:
        n += 1
    f = (m.ifft if inv else m.fft)(n, s, calls, hint)
    g.note("%s %s n=%d scale=%s calls=%d" % ("ifft" if inv else "fft", k, n, s, calls))
    g.label(("inverse " if inv else "forward ") + k)
    nin = n // 2 + 1 if k not in REAL and inv else n
    nout = n // 2 + 1 if k not in REAL and not inv else n
    need((f.input_size, f.output_size) == (nin, nout) and f.forward == (not inv) and abs(f.scale - s) < 1e-6, lambda: "reports %s to %s, forward %s, scale %s" % (f.input_size, f.output_size, f.forward, f.scale))
    ik, ok = (k, k) if k in REAL else (ck, k) if inv else (k, ck)
    for _ in range(g.range(1, 3)):
        if ik in REAL and k not in REAL:
            # a spectrum of real data
            x = np.fft.rfft(reals(r, n, "d")).astype(DT[ik])
            want = np.fft.irfft(x.astype(np.complex128), n) * n * s
        else:
            x = reals(r, nin, ik)
            y = x.astype(np.complex128)
            want = (np.fft.ifft(y) * n if inv else np.fft.fft(y)) * s
            if k not in REAL:
                want = want[:nout]
        i = operand(g, ik, (nin,), x)
        if k in REAL and g.flip(1, 3):
            f(i)
            g.label("in place")
            got = read(i)
        else:
            o = operand(g, ok, (nout,), np.zeros(nout, DT[ok]))
            f(i, o)
            got = read(o)
            need(exact(read(i), x), "the input has changed")
        need(close(got, want, k, factor=128), lambda: "of %s is %s, not %s" % (show(x), show(got), show(want)))
    if n > 1:
        g.nontrivial()


def law_fftm(g):
    k = g.pick(["d", "f", "cd", "cf"])
    m = mod("signal/_fftm_" + k)
    r = g.rng()
    d = [g.len(1, 24), g.len(1, 24)]
    ax = g.draw(2)      # 0: along the rows
    inv = g.flip()
    na = 1 - ax
    if k not in REAL and d[na] % 2:
        d[na] += 1
    n = d[na]
    s = g.pick([1.0, 0.5, 1.0 / n])
    calls, hint = g.pick([0, 0, 1]), g.pick([ST.alg_hint.time, ST.alg_hint.space, ST.alg_hint.noise])
    f = (m.ifftm if inv else m.fftm)(d[0], d[1], s, ax, calls, hint)
    g.note("%s %s %s axis=%d scale=%s" % ("ifftm" if inv else "fftm", k, d, ax, s))
    g.label(("inverse " if inv else "forward ") + k)
    half = list(d)
    half[na] = n // 2 + 1
    ck = k if k in REAL else "c" + k
    si, so = (d, d) if k in REAL else (half, d) if inv else (d, half)
    ik, ok = (k, k) if k in REAL else (ck, k) if inv else (k, ck)
    need(tuple(f.input_size) == tuple(si) and tuple(f.output_size) == tuple(so) and f.axis == ax and abs(f.scale - s) < 1e-6 and f.forward == (not inv), lambda: "reports %s to %s, axis %s, forward %s" % (f.input_size, f.output_size, f.axis, f.forward))
    for _ in range(g.range(1, 2)):
        if ik in REAL and k not in REAL:
            x = np.fft.rfft(reals(r, d, "d"), axis=na).astype(DT[ik])
            want = np.fft.irfft(x.astype(np.complex128), n, axis=na) * n * s
        else:
            x = reals(r, si, ik)
            y = x.astype(np.complex128)
            want = (np.fft.ifft(y, axis=na) * n if inv else np.fft.fft(y, axis=na)) * s
            if k not in REAL:
                want = want[:so[0], :so[1]]
        i = operand(g, ik, tuple(si), x)
        if k in REAL and g.flip(1, 3):
            f(i)
            g.label("in place")
            got = read(i)
        else:
            o = operand(g, ok, tuple(so), np.zeros(so, DT[ok]))
            f(i, o)
            got = read(o)
            need(exact(read(i), x), "the input has changed")
        need(close(got, want, k, factor=128), lambda: "of %s is %s, not %s" % (show(x), show(got), show(want)))
    if n > 1:
        g.nontrivial()


SYM = [(ST.symmetry.none, lambda c: c), (ST.symmetry.even_len_odd, lambda c: np.concatenate([c, c[-2::-1]])), (ST.symmetry.even_len_even, lambda c: np.concatenate([c, c[::-1]]))]
HINT = ST.alg_hint.time


def law_conv(g):
    k = g.pick(["d", "f", "cd", "cf"])
    m = mod("signal/_conv_" + k)
    r = g.rng()
    sym, unfold = g.pick(SYM)
    R = g.draw(3)
    c = data(r, g.len(1, 8), k)
    h = unfold(c)
    M, D = len(h), g.pick([1, 1, 2, 3])
    n = M + g.len(0, 40)
    f = m.conv(operand(g, k, c.shape, c), sym, n, D, [ST.support_region.full, ST.support_region.same, ST.support_region.min][R], 0, HINT)
    off = [0, M // 2, M - 1][R]
    every = [n + M - 1, n, n - M + 1][R]
    P = (every + D - 1) // D
    g.note("conv %s kernel=%d input=%d decimation=%d region=%d" % (k, M, n, D, R))
    need((f.kernel_size, f.input_size, f.output_size, f.decimation, f.symmetry, f.support) == (M, n, P, D, sym, [ST.support_region.full, ST.support_region.same, ST.support_region.min][R]), lambda: "reports kernel %s input %s output %s" % (f.kernel_size, f.input_size, f.output_size))
    for _ in range(g.range(1, 2)):
        x = data(r, n, k)
        i, o = operand(g, k, (n,), x), operand(g, k, (P,), np.zeros(P, DT[k]))
        f(i, o)
        full = np.convolve(h, x)
        want = np.array([full[off + j * D] if off + j * D < len(full) else 0 for j in range(P)])
        need(exact(read(o), want), lambda: "of %s with %s is %s, not %s" % (show(x), show(h), show(read(o)), show(want)))
        need(exact(read(i), x), "the input has changed")
    if M > 1:
        g.nontrivial()


def law_corr(g):
    k = g.pick(["d", "f", "cd", "cf"])
    m = mod("signal/_corr_" + k)
    r = g.rng()
    R = g.draw(3)
    M = g.len(1, 10)
    n = M + g.len(0, 40)
    f = m.corr(M, n, [ST.support_region.full, ST.support_region.same, ST.support_region.min][R], 0, HINT)
    P = [n + M - 1, n, n - M + 1][R]
    shift = [M - 1, M // 2, 0][R]
    unb = R != 1 and g.flip()
    g.note("corr %s reference=%d input=%d region=%d %s" % (k, M, n, R, "unbiased" if unb else "biased"))
    need((f.reference_size, f.input_size, f.output_size, f.support) == (M, n, P, [ST.support_region.full, ST.support_region.same, ST.support_region.min][R]), lambda: "reports %s %s %s" % (f.reference_size, f.input_size, f.output_size))
    for _ in range(g.range(1, 2)):
        h, x = data(r, M, k), data(r, n, k)
        hr, i, o = operand(g, k, (M,), h), operand(g, k, (n,), x), operand(g, k, (P,), np.zeros(P, DT[k]))
        f(ST.bias.unbiased if unb else ST.bias.biased, hr, i, o)
        pad = np.concatenate([np.zeros(shift, DT[k]), x, np.zeros(M, DT[k])])
        here = np.concatenate([np.zeros(shift), np.ones(n), np.zeros(M)])
        want = np.array([np.sum(h * np.conj(pad[j:j + M])) / (here[j:j + M].sum() if unb else 1) for j in range(P)])
        need(exact(read(o), want) or unb and close(read(o), want, k, factor=200 * M), lambda: "of %s with %s is %s, not %s" % (show(h), show(x), show(read(o)), show(want)))
        need(exact(read(i), x) and exact(read(hr), h), "an input has changed")
    if M > 1:
        g.nontrivial()


def law_fir(g):
    k = g.pick(["d", "f"])
    m = mod("signal/_fir_" + k)
    r = g.rng()
    sym, unfold = g.pick(SYM)
    c = data(r, g.len(2, 7), k)
    h = unfold(c)
    M = len(h)
    D = g.range(1, 3) if M > 3 else 1
    n = M - 1 + g.len(0, 30)
    P = (n + D - 1) // D
    keep = g.flip()
    f = m.fir(operand(g, k, c.shape, c), sym, n, D, ST.obj_state.save if keep else ST.obj_state.no_save, 0, HINT)
    g.note("fir %s kernel=%d input=%d decimation=%d %s: " % (k, M, n, D, "save" if keep else "no save"))
    need((f.kernel_size, f.input_size, f.output_size, f.decimation, f.symmetry, f.state) == (M, n, P, D, sym, ST.obj_state.save if keep else ST.obj_state.no_save), lambda: "reports kernel %s input %s output %s" % (f.kernel_size, f.input_size, f.output_size))
    past = np.zeros(0, DT[k])
    for _ in range(g.range(1, 5)):
        if g.flip(1, 5):
            f.reset()
            g.note("reset")
            past = past[:0]
        x = data(r, n, k)
        i, o = operand(g, k, (n,), x), operand(g, k, (P,), np.zeros(P, DT[k]))
        f(i, o)
        full = np.concatenate([past, x])
        # the outputs of a frame start where the decimation of the frames before leaves off
        y = np.convolve(h, full)
        idx = [j for j in range(len(past), len(full)) if j % D == 0] if keep else [len(past) + j * D for j in range(P)]
        want = y[idx]
        got = read(o)[:len(idx)]
        need(exact(got, want), lambda: "of %s with %s after %s is %s, not %s" % (show(x), show(h), show(past), show(got), show(want)))
        if keep:
            past = full
    g.nontrivial()


def law_iir(g):
    k = g.pick(["d", "f", "cd"])
    m = mod("signal/_iir_" + k)
    r = g.rng()
    S, n = g.range(1, 3), g.len(1, 30)
    b = data(r, (S, 3), k, -3, 3)
    a = (data(r, (S, 2), k, -2, 2) / 4).astype(DT[k])
    keep = g.flip()
    f = m.iir(operand(g, k, b.shape, b), operand(g, k, a.shape, a), n, ST.obj_state.save if keep else ST.obj_state.no_save, 0, HINT)
    g.note("iir %s sections=%d input=%d %s: " % (k, S, n, "save" if keep else "no save"))
    need((f.kernel_size, f.input_size, f.state) == (2 * S, n, ST.obj_state.save if keep else ST.obj_state.no_save), lambda: "reports kernel %s input %s" % (f.kernel_size, f.input_size))
    wide = np.complex128 if k in REAL else np.float64
    st = np.zeros((S, 2), wide)
    for _ in range(g.range(1, 5)):
        if g.flip(1, 5):
            f.reset()
            g.note("reset")
            st[:] = 0
        x = data(r, n, k)
        i, o = operand(g, k, (n,), x), operand(g, k, (n,), np.zeros(n, DT[k]))
        f(i, o)
        if not keep:
            st[:] = 0
        want = np.empty(n, wide)
        for j in range(n):
            v = wide(x[j])
            for q in range(S):
                w = v - a[q, 0] * st[q, 0] - a[q, 1] * st[q, 1]
                v = b[q, 0] * w + b[q, 1] * st[q, 0] + b[q, 2] * st[q, 1]
                st[q] = [w, st[q, 0]]
            want[j] = v
        got = read(o)
        need(close(got, want, k, scale=float(np.max(np.abs(want))) + 30.0 ** S + 1e3 * float(np.max(np.abs(st))), factor=1000), lambda: "of %s is %s, not %s" % (show(x), show(got), show(want)))
    g.nontrivial()


def law_window(g):
    k = g.pick(["d", "f"])
    m = mod("signal/_window_" + k)
    n = g.len(2, 200)
    i = np.arange(n)
    what = g.pick(["blackman", "hanning", "kaiser", "cheby"])
    tol = 3e-6
    if what == "blackman":
        got, want = m.blackman(n), 0.42 - 0.5 * np.cos(2 * np.pi * i / (n - 1)) + 0.08 * np.cos(4 * np.pi * i / (n - 1))
    elif what == "hanning":
        got, want = m.hanning(n), 0.5 * (1 - np.cos(2 * np.pi * (i + 1) / (n + 1)))
    elif what == "kaiser":
        beta = g.draw(80) / 8.0
        got, want, tol = m.kaiser(n, beta), np.i0(beta * np.sqrt(np.maximum(0, 1 - (2.0 * i / (n - 1) - 1) ** 2))) / np.i0(beta), 1e-4
    else:
        got = m.cheby(n, float(g.range(30, 80)))
        v = read(got)
        want, tol = v[::-1].astype(float), 5e-3
    g.note("%s %d" % (what, n))
    got = read(got)
    need(got.dtype == np.dtype(DT[k]), lambda: "dtype %s" % got.dtype)
    need(got.shape == (n,) and bool(np.all(np.abs(got - want) <= tol)), lambda: "%s(%d) is %s, not %s" % (what, n, show(got), show(want)))
    g.nontrivial()


# ------------------------------------------------------------------------------------ solvers, random numbers
def law_solvers(g):
    k = g.pick(["d", "f"])
    r = g.rng()
    n, q = g.len(1, 10), g.len(1, 5)
    eps = float(np.finfo(DT[k]).eps)
    what = g.pick(["lud", "chold", "qrd", "svd", "covsol", "llsqsol", "toepsol"])
    m = mod("math/solvers/_%s_%s" % (what, k))
    g.note("%s %s %d right sides=%d" % (what, k, n, q))
    g.label(what)
    D = DT[k]

    def solves(M, x, b, text):
        M = M.astype(float)
        res = np.max(np.abs(M @ x.astype(float) - b.astype(float)))
        tol = 300 * eps * (np.linalg.norm(M) * np.linalg.norm(x.astype(float)) + np.linalg.norm(b.astype(float))) * np.linalg.cond(M) ** 0.5
        need(res <= tol, lambda: "%s: residual %s > %s, A=%s b=%s x=%s" % (text, res, tol, show(M), show(b), show(x)))

    if what == "lud":
        a = (reals(r, (n, n), k) + 3 * n * np.eye(n)).astype(D)[r.permutation(n)]
        f = m.lud(n)
        need(f.decompose(operand(g, k, a.shape, a)), "not decomposed")
        for _ in range(g.range(1, 3)):
            b = reals(r, (n, q), k)
            x = operand(g, k, b.shape, np.zeros(b.shape, D))
            op, M = g.pick([(MT.mat_op.ntrans, a), (MT.mat_op.trans, a.T)])
            ob = operand(g, k, b.shape, b)
            need(f.solve(op, ob, x), "not solved")
            solves(M, read(x), b, "lud")
            need(exact(read(ob), b), "the right side has changed")
    elif what == "chold":
        t = np.tril(reals(r, (n, n), k).astype(float)) + 2 * np.eye(n)
        a = (t @ t.T + n * np.eye(n)).astype(D)
        up = g.flip()
        f = m.chold(MT.uplo.upper if up else MT.uplo.lower, n)
        # only the named triangle is read
        half = (np.triu(a) if up else np.tril(a)) + (np.tril(np.full((n, n), 9, D), -1) if up else np.triu(np.full((n, n), 9, D), 1))
        need(f.decompose(operand(g, k, a.shape, half)), "not decomposed")
        for _ in range(g.range(1, 3)):
            b = reals(r, (n, q), k)
            x = operand(g, k, b.shape, np.zeros(b.shape, D))
            ob = operand(g, k, b.shape, b)
            need(f.solve(ob, x), "not solved")
            solves(a, read(x), b, "chold")
            need(exact(read(ob), b), "the right side has changed")
    elif what == "qrd":
        M_ = n + g.len(0, 6)
        a = (reals(r, (M_, n), k) + 3 * np.eye(M_, n)).astype(D)
        f = m.qrd(M_, n, MT.storage.qrd_saveq)
        need(f.decompose(operand(g, k, a.shape, a)), "not decomposed")
        b = reals(r, (M_, q), k)
        x = operand(g, k, (n, q), np.zeros((n, q), D))
        need(f.lsqsol(operand(g, k, b.shape, b), x), "not solved")
        solves(a.T.astype(float) @ a.astype(float), read(x), a.T.astype(float) @ b.astype(float), "qrd.lsqsol")
        c = reals(r, (n, q), k)
        x = operand(g, k, (n, q), np.zeros((n, q), D))
        need(f.covsol(operand(g, k, c.shape, c), x), "not solved")
        solves(a.T.astype(float) @ a.astype(float), read(x), c, "qrd.covsol")
        # the factors: A = Q R, so Q' A X has nothing below row n, and R solves it
        z = reals(r, (M_, q), k)
        y = operand(g, k, z.shape, np.zeros(z.shape, D))
        need(f.prodq(MT.mat_op.trans, MT.product_side.lside, operand(g, k, z.shape, z), y), "no product with Q")
        back = operand(g, k, z.shape, np.zeros(z.shape, D))
        need(f.prodq(MT.mat_op.ntrans, MT.product_side.lside, operand(g, k, z.shape, read(y)), back), "no product with Q")
        need(close(read(back), z, k, scale=float(np.linalg.norm(z)) + 1e-3, factor=300), lambda: "Q (Q' z) is %s, not %s" % (show(read(back)), show(z)))
        w = reals(r, (n, M_), k)
        w = np.concatenate([w, reals(r, (q, M_), k)])
        y = operand(g, k, w.shape, np.zeros(w.shape, D))
        need(f.prodq(MT.mat_op.trans, MT.product_side.rside, operand(g, k, w.shape, w), y), "no product with Q")
        y2 = operand(g, k, w.T.shape, np.zeros(w.T.shape, D))
        need(f.prodq(MT.mat_op.ntrans, MT.product_side.lside, operand(g, k, w.T.shape, w.T), y2), "no product with Q")
        need(close(read(y), read(y2).T, k, scale=float(np.linalg.norm(w)) + 1e-3, factor=300), lambda: "w Q' is %s, not (Q w')' = %s" % (show(read(y)), show(read(y2).T)))
        x = operand(g, k, (n, q), np.zeros((n, q), D))
        alpha = g.range(1, 3)
        need(f.rsol(MT.mat_op.trans, operand(g, k, c.shape, c), float(alpha), x), "not solved")
        x2 = operand(g, k, (n, q), np.zeros((n, q), D))
        need(f.rsol(MT.mat_op.ntrans, operand(g, k, c.shape, read(x)), 1.0, x2), "not solved")
        solves(a.T.astype(float) @ a.astype(float), read(x2), alpha * c.astype(float), "qrd.rsol")
    elif what == "svd":
        p = g.len(1, 10)
        a = reals(r, (n, p), k)
        s = operand(g, k, (min(n, p),), np.zeros(min(n, p), D))
        f = m.svd(n, p, MT.storage.svd_uvpart, MT.storage.svd_uvpart)
        need(f.decompose(operand(g, k, a.shape, a), s), "not decomposed")
        got, want = read(s), np.linalg.svd(a.astype(float), compute_uv=False)
        need(close(got, want, k, factor=300), lambda: "singular values of %s are %s, not %s" % (show(a), show(got), show(want)))
        w = min(n, p)
        U, V = operand(g, k, (n, w), np.zeros((n, w), D)), operand(g, k, (p, w), np.zeros((p, w), D))
        need(f.u(0, w - 1, U) and f.v(0, w - 1, V), "no U or V")
        # products with either factor, as it is or transposed, on either side
        for name, F in (("U", read(U).astype(float)), ("V", read(V).astype(float))):
            trans, right = g.flip(), g.flip()
            F = F.T if trans else F
            z = reals(r, (q, F.shape[0]) if right else (F.shape[1], q), k)
            want = z @ F if right else F @ z
            y = operand(g, k, want.shape, np.zeros(want.shape, D))
            need((f.produ if name == "U" else f.prodv)(MT.mat_op.trans if trans else MT.mat_op.ntrans, MT.product_side.rside if right else MT.product_side.lside, operand(g, k, z.shape, z), y), "no product with " + name)
            need(close(read(y), want, k, scale=float(np.linalg.norm(z)) + 1e-3, factor=300), lambda: "%s trans=%s right=%s of %s is %s, not %s" % (name, trans, right, show(z), show(read(y)), show(want)))
        back = read(U).astype(float) @ np.diag(got.astype(float)) @ read(V).astype(float).T
        need(close(back, a.astype(float), k, scale=float(np.linalg.norm(a)) + 1e-3, factor=300), lambda: "U S V' is %s, not %s" % (show(back), show(a)))
    elif what == "covsol":
        M_ = n + g.len(0, 6)
        a = (reals(r, (M_, n), k) + 3 * np.eye(M_, n)).astype(D)
        b = reals(r, (n, q), k)
        x = operand(g, k, b.shape, np.zeros(b.shape, D))
        m.covsol(operand(g, k, a.shape, a), operand(g, k, b.shape, b), x)
        solves(a.T.astype(float) @ a.astype(float), read(x), b, "covsol")
    elif what == "llsqsol":
        M_ = n + g.len(0, 6)
        a = (reals(r, (M_, n), k) + 3 * np.eye(M_, n)).astype(D)
        b = reals(r, (M_, q), k)
        x = operand(g, k, (n, q), np.zeros((n, q), D))
        m.llsqsol(operand(g, k, a.shape, a), operand(g, k, b.shape, b), x)
        solves(a.T.astype(float) @ a.astype(float), read(x), a.T.astype(float) @ b.astype(float), "llsqsol")
    else:
        t = reals(r, n, k)
        t[0] = 3 * n
        b = reals(r, n, k)
        x, y = operand(g, k, (n,), np.zeros(n, D)), operand(g, k, (n,), np.zeros(n, D))
        m.toepsol(operand(g, k, (n,), t), operand(g, k, (n,), b), y, x)
        T = np.array([[t[abs(i - j)] for j in range(n)] for i in range(n)])
        solves(T, read(x), b, "toepsol")
    if n > 1:
        g.nontrivial()


def law_rand(g):
    k = g.pick(["d", "f", "cd"])
    m = mod("_rand_" + k)
    seed, portable = g.draw(1 << 20), g.flip()
    a, b = m.rand(seed, portable), m.rand(seed, portable)
    g.note("%s seed=%d portable=%s: " % (k, seed, portable))
    for _ in range(g.range(1, 4)):
        name = g.pick(["randu", "randn"])
        if g.flip():
            n = g.len(1, 30)
            g.note("%s(%d)" % (name, n))
            got, want = read(getattr(a, name)(n)), [getattr(b, name)() for _ in range(n)]
        else:
            s = (g.len(1, 8), g.len(1, 8))
            g.note("%s%s" % (name, s))
            got = read(getattr(a, name)(*s))
            want = np.array([getattr(b, name)() for _ in range(s[0] * s[1])]).reshape(s)
        need(exact(got, np.asarray(want).astype(DT[k])), lambda: "%s: %s, one at a time %s" % (name, show(got), show(want)))
        if name == "randu":
            z = np.concatenate([got.real.ravel(), got.imag.ravel()])
            need(bool(np.all((z >= 0) & (z < 1 + (1e-7 if k == "f" else 0)))), "randu outside of [0, 1)")
    g.nontrivial()
