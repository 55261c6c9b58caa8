"""The containers in which PyDTMC accepts matrices and vectors: form(name, array) builds one, spoil(object) modifies it in place."""
import numpy as np
import scipy.sparse as sp

try:
    import pandas as pd
except ImportError:  # pragma: no cover
    pd = None

MATRIX = ['list', 'tuples', 'array', 'fortran', 'strided', 'reversed', 'readonly', 'bigendian', 'matrix', 'longdouble', 'complex', 'csr', 'csc', 'coo', 'lil', 'dok', 'dia', 'bsr'] + (['frame', 'frame labelled'] if pd else [])
VECTOR = ['list', 'array', 'strided', 'reversed', 'readonly', 'bigendian', 'row', 'row list', 'csr', 'longdouble', 'complex'] + (['series', 'series labelled', 'frame'] if pd else [])


def integral(a):
    return bool(np.all(a == np.floor(a)) and np.all(np.abs(a) < 100))


def single(a):
    return bool(np.all(a.astype(np.float32).astype(float) == a))


def forms(a, base):
    """The forms which hold the array exactly."""
    out = list(base)
    if np.all(np.isfinite(a)):
        if single(a):
            out.append('float32')
        if integral(a):
            out += ['int', 'int8', 'int list']
            if np.all(a >= 0):
                out.append('uint8')
    return out


def form(name, a):
    a = np.array(a, dtype=float)
    if name == 'list':
        return a.tolist()
    if name == 'int list':
        return a.astype(int).tolist()
    if name == 'tuples':
        return [tuple(r) for r in a.tolist()]
    if name == 'array':
        return a
    if name == 'fortran':
        return np.asfortranarray(a)
    if name == 'strided':
        b = np.full(tuple(2 * x for x in a.shape), 7.0)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if name == 'reversed':
        k = tuple(slice(None, None, -1) for _ in a.shape)
        return a[k].copy()[k]
    if name == 'readonly':
        a.flags.writeable = False
        return a
    if name == 'bigendian':
        return a.astype('>f8')
    if name == 'longdouble':
        return a.astype(np.longdouble)
    if name == 'complex':
        return a.astype(complex)
    if name == 'matrix':
        return np.matrix(a)
    if name == 'float32':
        return a.astype(np.float32)
    if name == 'int':
        return a.astype(int)
    if name == 'int8':
        return a.astype(np.int8)
    if name == 'uint8':
        return a.astype(np.uint8)
    if name == 'row':
        return a.reshape(1, -1)
    if name == 'row list':
        return [a.tolist()]
    if name in ('csr', 'csc', 'coo', 'lil', 'dok', 'dia', 'bsr'):
        return getattr(sp, name + '_matrix')(a if a.ndim == 2 else a.reshape(1, -1))
    if name == 'frame':
        return pd.DataFrame(a if a.ndim == 2 else a.reshape(1, -1))
    if name == 'frame labelled':
        return pd.DataFrame(a, index=[f'r{len(a) - i}' for i in range(len(a))], columns=[f'c{a.shape[1] - i}' for i in range(a.shape[1])])
    if name == 'series':
        return pd.Series(a)
    if name == 'series labelled':
        return pd.Series(a, index=[f'r{len(a) - i}' for i in range(len(a))])
    raise KeyError(name)


def value(x):
    """The numbers held by a form, and its type: to compare before and after a call."""
    if sp.issparse(x):
        return type(x), np.array(x.todense(), dtype=float)
    if pd is not None and isinstance(x, (pd.DataFrame, pd.Series)):
        return type(x), np.array(x.to_numpy(), dtype=float), list(x.index)
    if isinstance(x, np.ndarray):
        return type(x), x.dtype, np.array(x)
    return type(x), repr(x)


def unchanged(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) if isinstance(x, np.ndarray) and x.dtype != object else x == y for x, y in zip(a, b))


def spoil(x):
    """Overwrites the content of a form in place."""
    if isinstance(x, list):
        for i, r in enumerate(x):
            if isinstance(r, list):
                for j in range(len(r)):
                    r[j] = 9.0
        x[:] = [9.0] * 3
    elif isinstance(x, np.ndarray):
        if not x.flags.writeable:
            x.flags.writeable = True
        x[...] = 9
    elif sp.issparse(x):
        if hasattr(x, 'data') and isinstance(x.data, np.ndarray) and x.data.dtype != object:
            x.data[...] = 9
        else:
            x[0, 0] = 9
    else:
        x.iloc[...] = 9
        try:
            x.to_numpy()[...] = 9
        except ValueError:
            pass
