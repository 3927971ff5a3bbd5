"""Structural comparison of a reader's result with the writer model's expectation.

Values, lengths, shapes and keys are compared; representation details that carry no
value (int32 or int64, list or array, dict or record array, float32 or python float)
are not.
"""
import numpy as np

from .objs import Approx

IGNORED_KEYS = {'curve_surface', 'curved_surface'}    # constants that old versions do not store


def diff(exp, got, path=''):
    """None if equal, else a short description of the first difference."""
    if isinstance(exp, Approx):
        g = _arr(got)
        if g is None:
            return '%s: expected array, got %r' % (path, type(got))
        e = np.asarray(exp.a, dtype='f8')
        if g.shape != e.shape:
            return '%s: shape %s != written %s' % (path, g.shape, e.shape)
        if not np.allclose(e, g.astype('f8'), rtol=exp.rtol, atol=1e-6, equal_nan=True):
            return '%s: values differ from those written' % path
        return None
    if exp is None:
        return None if got is None else '%s: expected None, got %s' % (path, short(got))
    if isinstance(exp, dict):
        return _diff_mapping(exp, got, path)
    if isinstance(exp, np.void):
        return _diff_mapping({k: exp[k] for k in exp.dtype.names}, got, path)
    if isinstance(exp, np.ndarray) and exp.dtype.names:
        return _diff_mapping({k: exp[k] for k in exp.dtype.names}, got, path)
    if isinstance(exp, np.ndarray):
        g = _arr(got)
        if g is None:
            return '%s: expected array, got %s' % (path, short(got))
        if g.shape != exp.shape:
            return '%s: shape %s != written %s' % (path, g.shape, exp.shape)
        return None if _same(exp, g) else '%s: array values differ: %s != written %s' % (path, short(g), short(exp))
    if isinstance(exp, (bytes, bytearray)):
        try:
            ok = bytes(got) == bytes(exp) and not isinstance(got, int)
        except TypeError:
            ok = False
        return None if ok else '%s: %s != written %s' % (path, short(got), short(exp))
    if isinstance(exp, str):
        return None if got == exp else '%s: %s != written %s' % (path, short(got), short(exp))
    if isinstance(exp, (tuple, list)):
        try:
            n = len(got)
        except TypeError:
            return '%s: expected sequence of %d, got %s' % (path, len(exp), short(got))
        if n != len(exp):
            return '%s: length %d != written %d' % (path, n, len(exp))
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    # scalar
    if got is None or isinstance(got, (str, bytes, dict, list)):
        return '%s: expected %s, got %s' % (path, short(exp), short(got))
    g = np.asarray(got)
    if g.shape not in ((), ):
        return '%s: expected scalar %s, got %s' % (path, short(exp), short(got))
    return None if _same(np.asarray(exp), g) else '%s: %s != written %s' % (path, short(got), short(exp))


def _arr(got):
    if got is None or isinstance(got, (dict, str, bytes)):
        return None
    try:
        a = np.asarray(got)
    except (ValueError, TypeError):
        return None
    if a.dtype == object or a.dtype.names:
        return None
    return a


def _same(e, g):
    if e.dtype.kind in 'SU' or g.dtype.kind in 'SU':
        return e.shape == g.shape and bool(np.all(e == g))
    if e.size == 0:
        return True
    if e.dtype.kind in 'iub' and g.dtype.kind in 'iub':
        # exact comparison without losing 64 bit precision
        if e.dtype.kind == 'u' or g.dtype.kind == 'u':
            return [int(x) for x in e.ravel()] == [int(x) for x in g.ravel()]
        return bool(np.all(e == g))
    with np.errstate(all='ignore'):
        return bool(np.array_equal(e.astype('f8'), g.astype('f8'), equal_nan=True))


def _diff_mapping(exp, got, path):
    if isinstance(got, dict) or hasattr(got, 'keys'):
        keys = set(got.keys())
        get = got.__getitem__
    elif isinstance(got, (np.ndarray, np.void)) and got.dtype.names:
        keys = set(got.dtype.names)
        get = got.__getitem__
    elif hasattr(got, '_asdict'):
        d = got._asdict()
        keys, get = set(d), d.__getitem__
    else:
        return '%s: expected mapping, got %s' % (path, short(got))
    ek = set(exp)
    if ek - keys:
        return '%s: missing %s' % (path, sorted(map(str, ek - keys))[:5])
    extra = keys - ek - IGNORED_KEYS
    if extra:
        return '%s: unexpected %s' % (path, sorted(map(str, extra))[:5])
    for k in exp:
        d = diff(exp[k], get(k), '%s.%s' % (path, k if not isinstance(k, bytes) else k.decode('latin1')))
        if d:
            return d
    return None


def short(x):
    s = repr(x)
    s = ' '.join(s.split())
    return s if len(s) <= 120 else s[:117] + '...'


def snapshot(x):
    """A deep, independent, plain copy of any result (used to detect later changes)."""
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return {n: np.array(x[n], copy=True) for n in x.dtype.names}
        return np.array(x, copy=True)
    if isinstance(x, np.void):
        return {n: snapshot(x[n]) for n in x.dtype.names}
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if hasattr(x, '_asdict'):
        return {k: snapshot(v) for k, v in x._asdict().items()}
    if isinstance(x, (list, tuple)):
        return type(x)(snapshot(v) for v in x) if type(x) in (list, tuple) else [snapshot(v) for v in x]
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if hasattr(x, 'typecode') and hasattr(x, 'tolist'):
        return x.tolist()
    return x


def same(a, b, path=''):
    """Exact structural equality of two reader results (both actual values)."""
    return diff(snapshot(a), b, path)


def canon(x):
    """A hashable, deterministic text of a result for event logs."""
    import hashlib
    h = hashlib.sha256()
    _canon(x, h)
    return h.hexdigest()[:16]


def _canon(x, h):
    if isinstance(x, np.ndarray) and x.dtype.names:
        for n in x.dtype.names:
            h.update(n.encode())
            _canon(np.asarray(x[n]), h)
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            _canon(list(x.ravel()), h)
        else:
            h.update(str((x.shape, x.dtype.kind)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, np.void):
        for n in x.dtype.names or ():
            h.update(n.encode())
            _canon(np.asarray(x[n]), h)
    elif hasattr(x, '_asdict'):
        _canon(x._asdict(), h)
    elif isinstance(x, dict):
        h.update(b'{')
        for k, v in x.items():
            h.update(repr(k).encode() if not isinstance(k, np.generic) else repr(k.item()).encode())
            _canon(v, h)
        h.update(b'}')
    elif isinstance(x, (list, tuple)):
        h.update(b'[')
        for v in x:
            _canon(v, h)
        h.update(b']')
    elif isinstance(x, np.generic):
        h.update(repr(x.item()).encode())
    else:
        try:
            h.update(repr(x).encode() if not hasattr(x, 'typecode') else x.tobytes())
        except Exception:
            h.update(type(x).__name__.encode())
