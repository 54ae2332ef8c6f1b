"""NumPy functions that are definable from modelled ones; the definitions are analysed like the program's own source."""

TEXT = '''
import numpy as np


def take(a, indices, axis=None):
    a = np.asarray(a)
    if axis is None:
        return a.ravel()[indices]
    if axis < 0:
        axis = axis + a.ndim
    return a[(slice(None),) * axis + (indices,)]


def pad(array, pad_width, mode='constant', constant_values=0):
    a = np.asarray(array)
    if mode not in ('constant', 'edge'):
        return np.unmodelled_pad(array, pad_width, mode)
    if not isinstance(pad_width, (list, tuple)):
        widths = [(pad_width, pad_width)] * a.ndim
    elif not isinstance(pad_width[0], (list, tuple)):
        if len(pad_width) == 1:
            widths = [(pad_width[0], pad_width[0])] * a.ndim
        else:
            widths = [tuple(pad_width)] * a.ndim
    elif len(pad_width) == 1:
        widths = list(pad_width) * a.ndim
    else:
        widths = list(pad_width)
    for axis in range(a.ndim):
        before, after = widths[axis]
        parts = [a]
        if before != 0:
            if mode == 'edge':
                parts.insert(0, np.repeat(a[(slice(None),) * axis + (slice(0, 1),)], before, axis=axis))
            else:
                shape = list(a.shape)
                shape[axis] = before
                parts.insert(0, np.full(shape, constant_values))
        if after != 0:
            if mode == 'edge':
                parts.append(np.repeat(a[(slice(None),) * axis + (slice(-1, None),)], after, axis=axis))
            else:
                shape = list(a.shape)
                shape[axis] = after
                parts.append(np.full(shape, constant_values))
        if len(parts) > 1:
            a = np.concatenate(parts, axis=axis)
    return a


def insert(arr, obj, values, axis=None):
    a = np.asarray(arr)
    if not isinstance(obj, int):
        return np.unmodelled_insert(arr, obj, values, axis)
    if axis is None:
        a = a.ravel()
        axis = 0
    if axis < 0:
        axis = axis + a.ndim
    values = np.asarray(values)
    if values.ndim == 0:
        shape = list(a.shape)
        shape[axis] = 1
        values = np.full(shape, values)
    elif values.ndim == a.ndim - 1:
        values = np.expand_dims(values, axis)
    elif values.ndim < a.ndim - 1:
        return np.unmodelled_insert(arr, obj, values, axis)
    if obj == 0:
        return np.concatenate([values, a], axis=axis)
    head = (slice(None),) * axis
    return np.concatenate([a[head + (slice(None, obj),)], values, a[head + (slice(obj, None),)]], axis=axis)


def delete(arr, obj, axis=None):
    a = np.asarray(arr)
    if not isinstance(obj, int):
        return np.unmodelled_delete(arr, obj, axis)
    if axis is None:
        a = a.ravel()
        axis = 0
    if axis < 0:
        axis = axis + a.ndim
    head = (slice(None),) * axis
    if obj == 0:
        return a[head + (slice(1, None),)].copy()
    if obj == -1:
        return a[head + (slice(None, -1),)].copy()
    return np.concatenate([a[head + (slice(None, obj),)], a[head + (slice(obj + 1, None),)]], axis=axis)


def roll(a, shift, axis=None):
    a = np.asarray(a)
    if axis is None:
        if a.ndim != 1:
            return np.unmodelled_roll(a, shift, axis)
        axis = 0
    if axis < 0:
        axis = axis + a.ndim
    head = (slice(None),) * axis
    return np.concatenate([a[head + (slice(-shift, None),)], a[head + (slice(None, -shift),)]], axis=axis)


def ndim(a):
    return np.asarray(a).ndim


def shape(a):
    return np.asarray(a).shape


def size(a, axis=None):
    if axis is None:
        return np.asarray(a).size
    return np.asarray(a).shape[axis]


def fill_diagonal(a, val, wrap=False):
    i = np.arange(min(a.shape[0], a.shape[1]))
    a[i, i] = val


def fromiter(iter, dtype=float, count=-1):
    return np.array(list(iter), dtype=dtype)


def ediff1d(ary):
    return np.diff(np.asarray(ary).ravel())


def nansum(a, axis=None):
    return np.sum(a, axis=axis)


def nanmean(a, axis=None):
    return np.mean(a, axis=axis)


def nanvar(a, axis=None, ddof=0):
    return np.var(a, axis=axis, ddof=ddof)


def ptp(a, axis=None):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


def fliplr(m):
    return np.asarray(m)[:, ::-1]


def flipud(m):
    return np.asarray(m)[::-1]


def row_stack(tup):
    return np.vstack(tup)


def float_power(a, b):
    return np.power(a, b)


def copyto(dst, src):
    dst[...] = src


def multi_dot(arrays):
    r = arrays[0]
    for x in arrays[1:]:
        r = np.dot(r, x)
    return r


def array_equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(a == b))


def take_along_axis(arr, indices, axis):
    if arr.ndim == 1:
        return arr[indices]
    return np.unmodelled_take_along_axis(arr, indices, axis)
'''

NAMES = {'take': 'take', 'pad': 'pad', 'insert': 'insert', 'delete': 'delete', 'roll': 'roll', 'ndim': 'ndim', 'shape': 'shape', 'size': 'size',
         'fill_diagonal': 'fill_diagonal', 'fromiter': 'fromiter', 'ediff1d': 'ediff1d', 'nansum': 'nansum', 'nanmean': 'nanmean', 'nanvar': 'nanvar',
         'ptp': 'ptp', 'fliplr': 'fliplr', 'flipud': 'flipud', 'row_stack': 'row_stack', 'float_power': 'float_power', 'copyto': 'copyto',
         'linalg.multi_dot': 'multi_dot', 'array_equal': 'array_equal', 'take_along_axis': 'take_along_axis'}


def defined(name):
    def f(I, q, args, kw):
        return I.call(I.prelude[name], list(args), kw)
    return f
