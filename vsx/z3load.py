"""Import z3 from the pre-installed verification venv without putting that venv on sys.path."""
import importlib.util
import sys
import glob


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    cands = glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/__init__.py')
    for p in cands:
        s = importlib.util.spec_from_file_location('z3', p, submodule_search_locations=[p.rsplit('/', 1)[0]])
        m = importlib.util.module_from_spec(s)
        sys.modules['z3'] = m
        s.loader.exec_module(m)
        return m
    raise ImportError('z3 not found in /opt/veriftools/pyvenv')


z3 = load()
