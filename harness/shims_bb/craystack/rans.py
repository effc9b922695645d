import numpy as np

rans_l = 1 << 31


def base_message(shape):
    return np.full(shape, rans_l, dtype="uint64"), ()


def random_message(flat_len, shape, rng=np.random):
    head = rng.randint(rans_l, 1 << 63, size=shape, dtype="uint64")
    return head, (rng.randint(1 << 32, size=flat_len, dtype="uint32"), ())


def stack_slice(stack, n):
    out = []
    while n > 0:
        if stack == ():
            raise IndexError("popping from an empty message")
        arr, stack = stack
        if n >= len(arr):
            out.append(arr)
            n -= len(arr)
        else:
            out.append(arr[:n])
            stack, n = (arr[n:], stack), 0
    return stack, np.concatenate(out)


def _u(v):
    return np.asarray(v).astype("uint64")


def push(x, starts, freqs, precision):
    head, tail = x
    starts, freqs = _u(starts), _u(freqs)
    if np.any(freqs == 0):
        raise ValueError("symbol without probability")
    full = head >= np.uint64((rans_l >> precision) << 32) * freqs
    if np.any(full):
        tail = (head[full].astype("uint32"), tail)
        head = np.where(full, head >> np.uint64(32), head)
    return ((head // freqs) << np.uint64(precision)) + head % freqs + starts, tail


def pop(x, precision):
    head_, tail_ = x
    cfs = head_ & np.uint64((1 << precision) - 1)

    def fin(starts, freqs):
        head = _u(freqs) * (head_ >> np.uint64(precision)) + cfs - _u(starts)
        low = head < np.uint64(rans_l)
        n, tail = int(np.sum(low)), tail_
        if n:
            tail, new = stack_slice(tail, n)
            head = head.copy()
            head[low] = (head[low] << np.uint64(32)) | new.astype("uint64")
        return head, tail
    return cfs, fin


def flatten(x):
    head, tail = x
    head = np.ravel(head)
    out = [(head >> np.uint64(32)).astype("uint32"), head.astype("uint32")]
    while tail != ():
        arr, tail = tail
        out.append(arr)
    return np.concatenate(out)


def unflatten(arr, shape):
    size = int(np.prod(shape))
    arr = np.asarray(arr)
    head = arr[:size].astype("uint64") << np.uint64(32) | arr[size:2 * size].astype("uint64")
    return np.reshape(head, shape), (arr[2 * size:], ())


def message_equal(a, b):
    return np.array_equal(flatten(a), flatten(b))
