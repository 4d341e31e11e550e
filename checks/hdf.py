"""Stand-ins for the file system and for HDF5 tables, so that tables with
symbolic values can be written and read."""
import ast
import contextlib
import os as _os
import sys

from symex.core import EngineLimit
from symex.stub import replaced


class Files:
    """files: path -> {key: list of tables}; dirs: set of paths"""

    def __init__(self):
        self.files, self.dirs = {}, set()
        self.unreadable = set()
        self.removed = []

    # -- os ---------------------------------------------------------------
    def exists(self, p):
        return p in self.files or p in self.dirs

    def isfile(self, p):
        return p in self.files

    def isdir(self, p):
        return p in self.dirs

    def makedirs(self, p, *a, exist_ok=False, **k):
        if p in self.dirs and not exist_ok:
            raise FileExistsError(p)
        self.dirs.add(p)

    mkdir = makedirs

    def remove(self, p):
        if p not in self.files:
            raise FileNotFoundError(p)
        self.removed.append(p)
        del self.files[p]

    unlink = remove

    def rmdir(self, p):
        if self.listdir(p):
            raise OSError('not empty')
        self.dirs.discard(p)

    def rename(self, a, b):
        self.files[b] = self.files.pop(a)

    replace = rename

    def listdir(self, p):
        return sorted(f[len(p) + 1:] for f in self.files
                      if _os.path.dirname(f) == p)

    def rmtree(self, p):
        for f in list(self.files):
            if f.startswith(p + '/'):
                del self.files[f]
        self.dirs.discard(p)

    # -- tables -----------------------------------------------------------
    def table(self, path, key):
        t = self.files[path].get('/' + key.lstrip('/'))
        return None if t is None else concat(t)


def concat(tables):
    import pandas as pd
    return pd.concat(tables, axis=0) if len(tables) > 1 else tables[0].copy()


def value_of(text, depth=3):
    """a name or expression of a query, in the scope of the caller"""
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        pass
    f = sys._getframe(depth)
    while f is not None:
        if text in f.f_locals:
            return f.f_locals[text]
        f = f.f_back
    raise EngineLimit('query ' + text)


def query(df, where):
    if where is None:
        return df
    w = where.strip()
    for op in ('==', '=', ' in '):
        if op in w:
            left, right = w.split(op, 1)
            if left.strip() != 'index':
                raise EngineLimit('query ' + w)
            v = value_of(right.strip())
            break
    else:
        raise EngineLimit('query ' + w)
    try:
        v = list(v)
    except TypeError:
        v = [v]
    return df[[i in v for i in df.index]]


def store_class(fs):
    class Store:
        def __init__(self, path=None, mode='a', *a, **k):
            self.path = path
            if mode == 'r' and path not in fs.files:
                raise FileNotFoundError(path)
            if path in fs.unreadable:
                raise OSError('unreadable')
            if mode == 'w' or path not in fs.files:
                fs.files[path] = {}
            self.d = fs.files[path]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def keys(self):
            return list(self.d)

        def __contains__(self, k):
            return '/' + k.lstrip('/') in self.d

        def append(self, key, df, **k):
            self.d.setdefault('/' + key.lstrip('/'), []).append(df.copy())

        def put(self, key, df, **k):
            self.d['/' + key.lstrip('/')] = [df.copy()]

        def remove(self, key):
            del self.d['/' + key.lstrip('/')]

        __delitem__ = remove
        __setitem__ = put

        def __getitem__(self, key):
            k = '/' + key.lstrip('/')
            if k not in self.d:
                raise KeyError(key)
            return concat(self.d[k])

        get = __getitem__

        def select(self, key, where=None, start=None, stop=None, columns=None,
                   chunksize=None, iterator=False, **k):
            df = self[key]
            df = df.iloc[start:stop]
            df = query(df, where)
            if columns is not None:
                df = df[list(columns)]
            if chunksize is None:
                return df.copy()
            return iter([df.iloc[i:i + chunksize].copy()
                         for i in range(0, len(df), chunksize)])

        def select_column(self, key, col, **k):
            import pandas as pd
            df = self[key]
            return pd.Series(df.index, name='index') if col == 'index' \
                else pd.Series(list(df[col]), name=col)
    return Store


@contextlib.contextmanager
def filesystem(fs, *mods):
    """the modules use `fs` for their files and tables"""
    Store = store_class(fs)

    class Path:
        exists, isfile, isdir = fs.exists, fs.isfile, fs.isdir

        def __getattr__(self, k):
            if k in ('join', 'abspath', 'dirname', 'basename', 'splitext',
                     'split', 'normpath'):
                return getattr(_os.path, k)
            raise EngineLimit('os.path.' + k)
    path = Path()
    path.exists, path.isfile, path.isdir = fs.exists, fs.isfile, fs.isdir

    class Os:
        def __getattr__(self, k):
            if k in ('remove', 'unlink', 'rename', 'replace', 'makedirs',
                     'mkdir', 'listdir', 'rmdir'):
                return getattr(fs, k)
            if k in ('sep', 'environ', 'getpid', 'getcwd'):
                return getattr(_os, k)
            raise EngineLimit('os.' + k)
    Os.path = path

    class Shutil:
        rmtree = staticmethod(fs.rmtree)

        def move(self, a, b):
            fs.rename(a, b)

    with contextlib.ExitStack() as st:
        for m in mods:
            old = m.pd

            class Pd:
                HDFStore = Store

                def __getattr__(self, k, old=old):
                    return getattr(old, k)

                @staticmethod
                def read_hdf(f, key=None, **k):
                    with Store(f, mode='r') as s:
                        return s.select(key, **k)
            if getattr(old, 'HDFStore', None) is not Store:
                st.enter_context(replaced(m, 'pd', Pd()))
            if not isinstance(m.os, Os):
                st.enter_context(replaced(m, 'os', Os()))
            if hasattr(m, 'shutil'):
                st.enter_context(replaced(m, 'shutil', Shutil()))
        yield
