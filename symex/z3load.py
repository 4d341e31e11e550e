"""Make the pre-installed z3 Python binding importable from the repository's
own interpreter (/opt/venv).  Only the `z3` package is taken from the tooling
venv; nothing else of that venv gets on sys.path."""
import glob
import importlib.util
import sys


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    try:
        import z3
        return z3
    except ImportError:
        pass
    cands = sorted(glob.glob(
        '/opt/veriftools/pyvenv/lib/python3*/site-packages/z3'))
    if not cands:
        raise RuntimeError("z3 Python binding not found")
    p = cands[0]
    spec = importlib.util.spec_from_file_location(
        'z3', p + '/__init__.py', submodule_search_locations=[p])
    m = importlib.util.module_from_spec(spec)
    sys.modules['z3'] = m
    spec.loader.exec_module(m)
    return m


z3 = load()
