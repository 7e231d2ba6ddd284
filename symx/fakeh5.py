"""in-memory stand-in of h5py for symbolic runs (the concrete replay uses the real h5py)"""
import numpy as np
from . import symnp
from .symnp import isO, SymArray, wrap, arr, is_symobj


class Attrs(dict):
    def create(self, k, v):
        self[k] = v


class DS(SymArray):
    """dataset: the stored values plus attributes"""
    def __array_finalize__(self, o):
        SymArray.__array_finalize__(self, o)
        self.attrs = getattr(o, 'attrs', None)

    def __getitem__(self, ix):
        r = SymArray.__getitem__(self, ix)
        if isinstance(r, DS):
            dt = self._dt
            r = np.asarray(r)
            if isO(r):
                r = r.view(SymArray)
                r._dt = dt
        return r

    def __iter__(self):
        return iter(np.asarray(self))

    @property
    def value(self):
        return self[...]

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        dest[dest_sel if dest_sel is not None else Ellipsis] = self[source_sel if source_sel is not None else Ellipsis]


def mkds(data, dtype=None):
    if isinstance(data, (str, bytes)) or is_symobj(data):
        o = np.empty((), dtype=object)
        o[()] = data
    else:
        o = np.array(data, copy=True)
    if dtype is not None:
        o = symnp.narrow(o, dtype)
    d = o.view(DS)
    d._dt = getattr(data, '_dt', None)
    d.attrs = Attrs()
    return d


class Group(object):
    def __init__(self, store, prefix=''):
        self.store, self.prefix = store, prefix
        self.attrs = store.setdefault(('attrs', prefix), Attrs())

    def _k(self, k):
        if isinstance(k, bytes):
            k = k.decode()
        return (self.prefix + '/' + k.strip('/')).strip('/') if isinstance(k, str) else k

    def __contains__(self, k):
        k = self._k(k)
        return k in self.store or any(isinstance(x, str) and x.startswith(k + '/') for x in self.store)

    def __getitem__(self, k):
        k = self._k(k)
        if k in self.store:
            return self.store[k]
        if k in self:
            return Group(self.store, k)
        raise KeyError("Unable to open object (object '%s' doesn't exist)" % (k,))

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        k = self._k(name)
        if k in self.store:
            raise ValueError('Unable to create dataset (name already exists)')
        if data is None:
            data = np.zeros(shape, dtype=dtype)
        self.store[k] = mkds(data, dtype)
        return self.store[k]

    def create_group(self, name):
        return Group(self.store, self._k(name))

    require_group = create_group

    def __setitem__(self, k, v):
        k = self._k(k)
        if k in self.store:
            raise OSError('Unable to create link (name already exists)')
        self.store[k] = mkds(v)

    def __delitem__(self, k):
        del self.store[self._k(k)]

    def keys(self):
        out = []
        p = self.prefix + '/' if self.prefix else ''
        for k in self.store:
            if isinstance(k, str) and k.startswith(p):
                h = k[len(p):].split('/')[0]
                if h not in out:
                    out.append(h)
        return sorted(out)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]


class FakeH5(object):
    """h5py module"""
    def __init__(self):
        files = {}
        self.files = files

        class File(Group):
            def __init__(self, name, mode='r', *a, **k):
                name = str(name)
                if mode in ('w', 'w-', 'x') or (mode == 'a' and name not in files):
                    files[name] = {}
                if name not in files:
                    raise OSError('Unable to open file ' + name)
                Group.__init__(self, files[name])
                self.filename = name

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def flush(self):
                pass

        self.File = File
        self.Group = Group
        self.Dataset = DS
        self.special_dtype = lambda **k: object
        self.string_dtype = lambda *a, **k: object


def patch_h5(env):
    import h5py
    return dict(extra=[(h5py, FakeH5())])
