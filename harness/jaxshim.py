"""A stand-in for jax 0.2 (x64 enabled) on numpy, enough to run the entropy coders of /repo.

What is kept of jax, because the coders depend on it: arrays are immutable values with jax's type
promotion (python scalars are weakly typed), unsigned arithmetic wraps, reads out of bounds are clamped
and writes out of bounds dropped, dynamic slices are moved inside the operand, loop carries must keep
their types.  vmap runs the function item by item."""
import operator
import sys
import types

import numpy as np

_I = {1: "int8", 2: "int16", 4: "int32", 8: "int64"}


def _join(a, b):
    """jax's promotion of two strong types"""
    if a == b:
        return a
    ka, kb = a.kind, b.kind
    if ka == "b":
        return b
    if kb == "b":
        return a
    if ka == "f" or kb == "f":
        if ka == "f" and kb == "f":
            return a if a.itemsize >= b.itemsize else b
        return a if ka == "f" else b
    if ka == kb:
        return a if a.itemsize >= b.itemsize else b
    u, i = (a, b) if ka == "u" else (b, a)
    if u.itemsize == 8:
        return np.dtype("float64")
    if i.itemsize > u.itemsize:
        return i
    return np.dtype(_I[u.itemsize * 2])


_WEAK = {"b": 0, "i": 1, "u": 1, "f": 2}


def _strong(x):
    """-> (numpy value, dtype, weak)"""
    if isinstance(x, A):
        return x.v, x.v.dtype, x.weak
    if isinstance(x, (bool, np.bool_)):
        return np.asarray(bool(x)), np.dtype(bool), False
    if isinstance(x, int):
        return x, np.dtype("int64"), True
    if isinstance(x, float):
        return x, np.dtype("float64"), True
    v = _np(x)
    return v, v.dtype, False


def _promote(xs):
    info = [_strong(x) for x in xs]
    strong = [d for _, d, w in info if not w]
    weak = [d for _, d, w in info if w]
    dt = None
    for d in strong:
        dt = d if dt is None else _join(dt, d)
    wk = dt is None
    for d in weak:
        if dt is None:
            dt = d
        elif _WEAK[d.kind] > _WEAK[dt.kind]:
            dt = np.dtype("float64") if d.kind == "f" else np.dtype("int64")
        elif wk:
            dt = _join(dt, d)
    return [_cast(v, dt) for v, _, _ in info], dt, wk


def _cast(v, dt):
    if isinstance(v, int):
        if dt.kind in "iu":
            n = dt.itemsize * 8
            v &= (1 << n) - 1
            if dt.kind == "i" and v >> (n - 1):
                v -= 1 << n
        return np.asarray(v, dtype=dt)
    if isinstance(v, float):
        return np.asarray(v, dtype=dt)
    with np.errstate(all="ignore"):
        return v.astype(dt) if v.dtype != dt else v


def _np(x):
    if isinstance(x, A):
        return x.v
    if isinstance(x, (list, tuple)) and x and any(isinstance(y, (A, list, tuple)) for y in x):
        parts, dt, _ = _promote([y if isinstance(y, (A, bool, int, float)) else A(_np(y)) for y in x])
        return np.stack([np.asarray(p, dtype=dt) for p in parts])
    return np.asarray(x)


class A:
    __slots__ = ("v", "weak")
    __array_priority__ = 1000

    def __init__(self, v, weak=False):
        self.v = np.asarray(v)
        self.weak = weak

    # ---- values
    shape = property(lambda s: s.v.shape)
    size = property(lambda s: s.v.size)
    ndim = property(lambda s: s.v.ndim)
    dtype = property(lambda s: s.v.dtype)
    T = property(lambda s: A(s.v.T))
    nbytes = property(lambda s: s.v.nbytes)
    at = property(lambda s: _At(s))

    def __array__(self, dtype=None, copy=None):
        return self.v if dtype is None else self.v.astype(dtype)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return (A(x) for x in self.v)

    def __int__(self):
        return int(self.v)

    def __float__(self):
        return float(self.v)

    def __bool__(self):
        return bool(self.v)

    def __index__(self):
        return operator.index(self.v.item()) if self.v.size == 1 else self.v.__index__()

    def __bytes__(self):
        return self.v.tobytes()

    def __format__(self, spec):
        return format(self.v.item(), spec) if self.v.ndim == 0 else format(str(self.v), spec)

    def __repr__(self):
        return f"A({self.v!r})"

    def __hash__(self):
        raise TypeError("unhashable type: array")

    def __setitem__(self, k, v):
        raise TypeError("jax arrays are immutable; use x.at[idx].set(y)")

    def item(self, *a):
        return self.v.item(*a)

    def tolist(self):
        return self.v.tolist()

    def tobytes(self):
        return self.v.tobytes()

    def copy(self):
        return A(self.v.copy())

    def astype(self, dt):
        dt = np.dtype(dt)
        with np.errstate(all="ignore"):
            return A(self.v.astype(dt))

    def __getitem__(self, k):
        return A(_read(self.v, k))

    def __getattr__(self, name):
        f = getattr(np.ndarray, name, None)
        if f is None or not callable(f):
            raise AttributeError(name)

        def call(*a, **k):
            return _wrap(getattr(self.v, name)(*[_plain(x) for x in a], **{n: _plain(x) for n, x in k.items()}))
        return call


def _read(v, k):
    ks = k if isinstance(k, tuple) else (k,)
    out, ax = [], 0
    n_real = sum(x is not None and x is not Ellipsis for x in ks)
    for x in ks:
        if x is None:
            out.append(x)
            continue
        if x is Ellipsis:
            out.append(x)
            ax += v.ndim - n_real
            continue
        if isinstance(x, slice):
            out.append(slice(*[None if y is None else int(y) for y in (x.start, x.stop, x.step)]))
        else:
            i = _np(x)
            if i.dtype.kind in "iu":
                n = v.shape[ax]
                i = i.astype(np.int64)
                i = np.where(i < 0, i + n, i).clip(0, max(n - 1, 0))
                i = int(i) if i.ndim == 0 else i
            out.append(i)
        ax += 1
    return v[tuple(out)]


class _At:
    def __init__(self, a, k=None):
        self.a, self.k = a, k

    def __getitem__(self, k):
        return _At(self.a, k)

    def _do(self, f):
        v = self.a.v.copy()
        ks = self.k if isinstance(self.k, tuple) else (self.k,)
        plain = []
        for ax, x in enumerate(ks):
            if isinstance(x, slice) or x is Ellipsis or x is None:
                plain.append(slice(*[None if y is None else int(y) for y in (x.start, x.stop, x.step)]) if isinstance(x, slice) else x)
                continue
            i = _np(x)
            if i.dtype.kind in "iu":
                n = v.shape[ax]
                i = i.astype(np.int64)
                i = np.where(i < 0, i + n, i)
                if i.ndim == 0 and not 0 <= int(i) < n:
                    return self.a                                   # out of bounds: dropped
                if i.ndim:
                    if len(ks) > 1 and ((i < 0) | (i >= n)).any():
                        raise NotImplementedError("out of bounds scatter")
            plain.append(i)
        k = tuple(plain)
        if len(k) == 1 and isinstance(k[0], np.ndarray) and k[0].ndim and k[0].dtype.kind in "iu":
            ok = (k[0] >= 0) & (k[0] < v.shape[0])
            return A(f(v, (k[0][ok],), lambda y: np.broadcast_to(y, k[0].shape + v.shape[1:])[ok]))
        return A(f(v, k, lambda y: y))

    def set(self, y):
        y = _np(y)

        def f(v, k, sel):
            with np.errstate(all="ignore"):
                v[k] = sel(y.astype(v.dtype))
            return v
        return self._do(f)

    def _ufunc(self, uf, y):
        y = _np(y)

        def f(v, k, sel):
            with np.errstate(all="ignore"):
                uf.at(v, k, sel(y.astype(v.dtype)))
            return v
        return self._do(f)

    def add(self, y):
        return self._ufunc(np.add, y)

    def multiply(self, y):
        return self._ufunc(np.multiply, y)

    mul = multiply

    def max(self, y):
        return self._ufunc(np.maximum, y)

    def min(self, y):
        return self._ufunc(np.minimum, y)

    def get(self):
        return self.a[self.k]


def _shift(left):
    def f(x, n):
        bits = x.dtype.itemsize * 8
        n = n.astype(np.int64)
        big = n >= bits
        n = np.where(big, 0, n).astype(x.dtype)
        r = np.left_shift(x, n) if left else np.right_shift(x, n)
        fill = np.zeros_like(x) if left or x.dtype.kind == "u" else np.where(x < 0, -1, 0).astype(x.dtype)
        return np.where(big, fill, r).astype(x.dtype)
    return f


def _binop(f):
    def op(x, y):
        (a, b), dt, wk = _promote([x, y])
        with np.errstate(all="ignore"):
            r = f(a, b)
        r = np.asarray(r)
        return A(r, wk and r.dtype.kind != "b")
    return op


def _div(a, b):
    if a.dtype.kind != "f":
        a, b = a.astype(np.float64), b.astype(np.float64)
    return a / b


_BIN = dict(add=np.add, sub=np.subtract, mul=np.multiply, floordiv=np.floor_divide, mod=np.mod, truediv=_div, pow=np.power,
            lshift=_shift(True), rshift=_shift(False), lt=np.less, le=np.less_equal, gt=np.greater,
            ge=np.greater_equal, eq=np.equal, ne=np.not_equal, matmul=np.matmul)
_BIN["and"], _BIN["or"], _BIN["xor"] = np.bitwise_and, np.bitwise_or, np.bitwise_xor
for _n, _f in _BIN.items():
    _op = _binop(_f)
    setattr(A, f"__{_n}__", _op)
    if _n not in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(A, f"__r{_n}__", (lambda g: lambda x, y: g(y, x))(_op))
A.__divmod__ = lambda x, y: (x // y, x % y)
A.__neg__ = lambda x: A(-x.v, x.weak)
A.__invert__ = lambda x: A(~x.v, x.weak)
A.__abs__ = lambda x: A(abs(x.v), x.weak)
A.__pos__ = lambda x: x


def _plain(x):
    if isinstance(x, A):
        return x.v
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, (A, list, tuple)) for y in x):
            r = [_plain(y) for y in x]
            return tuple(r) if isinstance(x, tuple) else r
    return x


def _wrap(x):
    if isinstance(x, (np.ndarray, np.generic)):
        return A(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_wrap(y) for y in x) if type(x) in (list, tuple) else x
    return x


# ---- jax.numpy
class _Scalar:
    """jnp.uint32 and friends: type and conversion at once"""

    def __init__(self, name):
        self.dtype = np.dtype(name)

    def __call__(self, x=0):
        v, _, _ = _strong(x)
        return A(_cast(v, self.dtype))

    def __eq__(self, o):
        try:
            return np.dtype(o) == self.dtype
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.dtype)


def _dt(d):
    return None if d is None else np.dtype(d.dtype if isinstance(d, _Scalar) else d)


jnp = types.ModuleType("jax.numpy")
for _n in ("bool_", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"):
    setattr(jnp, _n, _Scalar(_n.rstrip("_")))
jnp.ndarray = A
jnp.dtype = np.dtype
jnp.newaxis = None
jnp.pi, jnp.inf, jnp.nan = np.pi, np.inf, np.nan


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    v = _np(s)
    return (int(v),) if v.ndim == 0 else tuple(int(x) for x in v)


def _array(x, dtype=None, copy=True):
    if isinstance(x, (bytes, bytearray)):
        v = np.frombuffer(bytes(x), np.uint8)
    else:
        v = _np(x)
    return A(v if dtype is None else _cast(v, _dt(dtype)))


jnp.array = jnp.asarray = _array
jnp.zeros = lambda shape, dtype="float64": A(np.zeros(_shape(shape), _dt(dtype)))
jnp.ones = lambda shape, dtype="float64": A(np.ones(_shape(shape), _dt(dtype)))
jnp.empty = jnp.zeros
jnp.full = lambda shape, fill, dtype=None: A(_cast(np.full(_shape(shape), _np(fill)), _dt(dtype)) if dtype is not None
                                             else np.full(_shape(shape), _np(fill)))
jnp.zeros_like = lambda x, dtype=None: A(np.zeros_like(_np(x), dtype=_dt(dtype)))
jnp.ones_like = lambda x, dtype=None: A(np.ones_like(_np(x), dtype=_dt(dtype)))
jnp.full_like = lambda x, f, dtype=None: A(np.full_like(_np(x), _np(f), dtype=_dt(dtype)))
jnp.arange = lambda *a, dtype=None: A(np.arange(*[int(x) if _np(x).dtype.kind in "iu" else x for x in a], dtype=_dt(dtype)))
for _n, _f in dict(add="add", subtract="sub", multiply="mul", floor_divide="floordiv", mod="mod", remainder="mod",
                   divide="truediv", true_divide="truediv", left_shift="lshift", right_shift="rshift", less="lt", less_equal="le",
                   greater="gt", greater_equal="ge", equal="eq", not_equal="ne", bitwise_and="and", bitwise_or="or",
                   bitwise_xor="xor", power="pow").items():
    setattr(jnp, _n, _binop(_BIN[_f]))
jnp.maximum, jnp.minimum = _binop(np.maximum), _binop(np.minimum)
jnp.divmod = lambda x, y: (jnp.floor_divide(x, y), jnp.mod(x, y))


def _where(c, x=None, y=None):
    if x is None:
        return tuple(A(i) for i in np.where(_np(c)))
    (a, b), _, wk = _promote([x, y])
    return A(np.where(_np(c), a, b), wk)


jnp.where = _where


def _concat(xs, axis=0):
    parts, _, _ = _promote([x if isinstance(x, A) else A(_np(x)) for x in xs])
    return A(np.concatenate(parts, axis))


def _stackf(xs, axis=0):
    parts, _, _ = _promote([A(_np(x)) for x in xs])
    return A(np.stack(parts, axis))


jnp.concatenate, jnp.stack = _concat, _stackf
jnp.hstack = lambda xs: A(np.hstack(_promote([A(_np(x)) for x in xs])[0]))
jnp.vstack = lambda xs: A(np.vstack(_promote([A(_np(x)) for x in xs])[0]))


def _append(a, b, axis=None):
    a, b = A(_np(a)), A(_np(b))
    if axis is None:
        a, b, axis = A(a.v.ravel()), A(b.v.ravel()), 0
    return _concat([a, b], axis)


jnp.append = _append
jnp.split = lambda x, s, axis=0: [A(p) for p in np.split(_np(x), s if isinstance(s, int) else [int(i) for i in s], axis)]
jnp.clip = lambda x, lo=None, hi=None: A(np.clip(_np(x), *[None if b is None else _cast(_strong(b)[0], _np(x).dtype) for b in (lo, hi)]))


def _take_along(x, i, axis):
    v, i = _np(x), _np(i).astype(np.int64)
    n = v.shape[axis]
    i = np.where(i < 0, i + n, i).clip(0, n - 1)
    return A(np.take_along_axis(v, i, axis))


def _take(x, i, axis=None, mode=None):
    v, i = _np(x), _np(i).astype(np.int64)
    n = v.size if axis is None else v.shape[axis]
    i = np.where(i < 0, i + n, i).clip(0, n - 1)
    return A(np.take(v, i, axis))


jnp.take_along_axis, jnp.take = _take_along, _take
jnp.searchsorted = lambda a, v, side="left": A(np.searchsorted(_np(a), _np(v), side))
jnp.diff = lambda x, n=1, axis=-1: A(np.diff(_np(x), n, axis))


def _generic(name):
    f = getattr(np, name)
    if isinstance(f, type) or not callable(f):
        return f

    def call(*a, **k):
        if "dtype" in k:
            k["dtype"] = _dt(k["dtype"])
        with np.errstate(all="ignore"):
            return _wrap(f(*[_plain(x) for x in a], **{n: _plain(x) for n, x in k.items()}))
    return call


jnp.__getattr__ = _generic

# ---- pytrees


def _flat(t):
    if t is None:
        return [], None
    if isinstance(t, (list, tuple)):
        out, spec = [], []
        for x in t:
            l, s = _flat(x)
            out += l
            spec.append((len(l), s))
        return out, (type(t), spec)
    if isinstance(t, dict):
        keys = sorted(t)
        l, s = _flat([t[k] for k in keys])
        return l, (dict, keys, s)
    return [t], "*"


def _unflat(spec, leaves):
    if spec is None:
        return None
    if spec == "*":
        return leaves[0]
    if spec[0] is dict:
        return dict(zip(spec[1], _unflat(spec[2], leaves)))
    out, i = [], 0
    for n, s in spec[1]:
        out.append(_unflat(s, leaves[i:i + n]))
        i += n
    return spec[0](*out) if hasattr(spec[0], "_fields") else spec[0](out)


def _tree_map(f, t, *rest):
    l, s = _flat(t)
    rs = [_flat(r)[0] for r in rest]
    return _unflat(s, [f(*xs) for xs in zip(l, *rs)])


def _leaf(x):
    return x if isinstance(x, A) else A(_strong(x)[0] if not isinstance(x, (int, float)) or isinstance(x, bool) else np.asarray(x), isinstance(x, (int, float)) and not isinstance(x, bool))


def _same_types(old, new, what):
    (lo, so), (ln, sn) = _flat(old), _flat(new)
    if repr(so) != repr(sn):
        raise TypeError(f"{what}: body_fun output and input must have the same structure")
    out = []
    for a, b in zip(lo, ln):
        a, b = _leaf(a), _leaf(b)
        if a.v.shape != b.v.shape or (a.v.dtype != b.v.dtype and not (a.weak or b.weak)):
            raise TypeError(f"{what}: body_fun output and input must have identical types, got {b.v.dtype}{b.v.shape} for {a.v.dtype}{a.v.shape}")
        if a.v.dtype != b.v.dtype and b.weak and not a.weak:
            b = A(_cast(b.v, a.v.dtype))
        out.append(b)
    return _unflat(sn, out)


# ---- jax.lax
lax = types.ModuleType("jax.lax")


def _while(cond, body, init):
    state = _tree_map(_leaf, init)
    while bool(_np(cond(state))):
        state = _same_types(state, body(state), "while_loop")
    return state


def _fori(lo, hi, body, init):
    state = _tree_map(_leaf, init)
    for i in range(int(_np(lo)), int(_np(hi))):
        state = _same_types(state, body(A(np.int64(i), True), state), "fori_loop")
    return state


def _cond(pred, t, f, *ops, operand=None):
    if not ops and operand is not None:
        ops = (operand,)
    return (t if bool(_np(pred)) else f)(*ops)


def _switch(i, branches, *ops, operand=None):
    if not ops and operand is not None:
        ops = (operand,)
    return branches[int(np.clip(int(_np(i)), 0, len(branches) - 1))](*ops)


def _scan(f, init, xs, length=None, reverse=False):
    l, s = _flat(xs)
    n = length if length is not None else len(l[0])
    ys, c = [], _tree_map(_leaf, init)
    for i in (reversed(range(n)) if reverse else range(n)):
        c2, y = f(c, _unflat(s, [A(_np(x)[i]) for x in l]))
        c = _same_types(c, c2, "scan")
        ys.append(y)
    if reverse:
        ys.reverse()
    l0, s0 = _flat(ys[0]) if ys else ([], None)
    return c, _unflat(s0, [_stackf([_flat(y)[0][j] for y in ys]) for j in range(len(l0))])


def _starts(op, start, sizes):
    start = list(start) if isinstance(start, (list, tuple)) else list(np.atleast_1d(_np(start)))
    st = [int(_np(x)) for x in start]
    if len(st) != op.ndim or len(sizes) != op.ndim:
        raise TypeError("dynamic slice: one index per dimension needed")
    for n, z in zip(op.shape, sizes):
        if z > n:
            raise TypeError(f"dynamic slice of size {z} in dimension of size {n}")
    return tuple(slice(min(max(s + n if s < 0 and False else s, 0), n - z), min(max(s, 0), n - z) + z) for s, n, z in zip(st, op.shape, sizes))


def _dslice(op, start, sizes):
    v = _np(op)
    return A(v[_starts(v, start, [int(z) for z in sizes])])


def _dupdate(op, upd, start):
    v, u = _np(op), _np(upd)
    if v.dtype != u.dtype:
        raise TypeError(f"dynamic_update_slice: {u.dtype} into {v.dtype}")
    r = v.copy()
    r[_starts(v, start, u.shape)] = u
    return A(r)


def _dupdate_index(op, upd, index, axis):
    v, u = _np(op), _np(upd)
    if u.ndim == v.ndim - 1:
        u = np.expand_dims(u, axis)
    st = [0] * v.ndim
    i = int(_np(index))
    st[axis] = i + v.shape[axis] if i < 0 else i
    return _dupdate(A(v), A(u), st)


def _sort_kv(keys, values, dimension=-1, is_stable=True):
    k, x = _np(keys), _np(values)
    o = np.argsort(k, axis=dimension, kind="stable")
    return A(np.take_along_axis(k, o, dimension)), A(np.take_along_axis(x, o, dimension))


lax.while_loop, lax.fori_loop, lax.cond, lax.switch, lax.scan = _while, _fori, _cond, _switch, _scan
lax.map = lambda f, xs: _vmap(f)(xs)
lax.dynamic_slice, lax.dynamic_update_slice = _dslice, _dupdate
lax.dynamic_slice_in_dim = lambda op, start, size, axis=0: _dslice(
    op, [start if a == axis else 0 for a in range(_np(op).ndim)], [size if a == axis else n for a, n in enumerate(_np(op).shape)])
lax.dynamic_update_slice_in_dim = lambda op, u, start, axis: _dupdate(op, u, [start if a == axis else 0 for a in range(_np(op).ndim)])
lax.dynamic_index_in_dim = lambda op, i, axis=0, keepdims=True: A(
    np.take(_np(op), [min(max(int(_np(i)), 0), _np(op).shape[axis] - 1)] if keepdims else min(max(int(_np(i)), 0), _np(op).shape[axis] - 1), axis))
lax.dynamic_update_index_in_dim = _dupdate_index
lax.sort_key_val = _sort_kv
lax.sort = lambda x, dimension=-1, is_stable=True: A(np.sort(_np(x), dimension, kind="stable"))
lax.argmax = lambda x, axis, dt: A(np.argmax(_np(x), axis).astype(_dt(dt)))
lax.argmin = lambda x, axis, dt: A(np.argmin(_np(x), axis).astype(_dt(dt)))
lax.select = lambda c, x, y: _where(c, x, y)
lax.shift_left, lax.shift_right_logical, lax.shift_right_arithmetic = jnp.left_shift, jnp.right_shift, jnp.right_shift
lax.convert_element_type = lambda x, dt: _array(x, dt)
lax.stop_gradient = lambda x: x
for _n, _f in dict(add="add", sub="subtract", mul="multiply", lt="less", le="less_equal", gt="greater", ge="greater_equal",
                   eq="equal", ne="not_equal", bitwise_and="bitwise_and", bitwise_or="bitwise_or", max="maximum", min="minimum").items():
    setattr(lax, _n, getattr(jnp, _f))

# ---- jax, jax.random, jax.ops
jax = types.ModuleType("jax")


def _vmap(f, in_axes=0, out_axes=0):
    def run(*args):
        flats = [_flat(a) for a in args]
        axes = in_axes if isinstance(in_axes, (list, tuple)) else [in_axes] * len(args)
        n = {len(_np(x)) for (l, _), ax in zip(flats, axes) if ax is not None for x in l}
        if len(n) != 1:
            raise ValueError(f"vmap got inconsistent sizes for array axes to be mapped: {sorted(n)}")
        outs = []
        for i in range(n.pop()):
            outs.append(f(*[_unflat(s, [A(_np(x)[i]) for x in l] if ax is not None else l) for (l, s), ax in zip(flats, axes)]))
        l0, s0 = _flat(outs[0])
        return _unflat(s0, [_stackf([_flat(o)[0][j] for o in outs]) for j in range(len(l0))])
    return run


jax.vmap = _vmap
jax.jit = lambda f=None, **k: f if f is not None else (lambda g: g)


class _Config:
    def update(self, *a):
        pass


jax.config = _Config()
jax.numpy, jax.lax = jnp, lax
jax.ops = types.ModuleType("jax.ops")
jax.ops.index_update = lambda x, i, y: x.at[i].set(y)
jax.ops.index_add = lambda x, i, y: x.at[i].add(y)
jax.random = types.ModuleType("jax.random")
jax.random.PRNGKey = lambda seed: A(np.array([0, int(seed)], np.uint32))


def _randint(key, shape, lo, hi, dtype="int64"):
    r = np.random.default_rng([int(x) for x in _np(key)])
    return A(r.integers(int(lo), int(hi), _shape(shape)).astype(_dt(dtype)))


jax.random.randint = _randint
jax.random.split = lambda key, num=2: A(np.random.default_rng([int(x) for x in _np(key)]).integers(0, 2**32, (num, 2)).astype(np.uint32))
jax.random.uniform = lambda key, shape=(), dtype="float64", minval=0.0, maxval=1.0: A(
    np.random.default_rng([int(x) for x in _np(key)]).uniform(minval, maxval, _shape(shape)).astype(_dt(dtype)))
jax.tree_util = types.ModuleType("jax.tree_util")
jax.tree_util.tree_map = jax.tree_map = _tree_map
jax.tree_multimap = _tree_map
jax.Array = A


def install():
    sys.modules.update({"jax": jax, "jax.numpy": jnp, "jax.lax": lax, "jax.ops": jax.ops, "jax.random": jax.random,
                        "jax.tree_util": jax.tree_util})
    return jax
