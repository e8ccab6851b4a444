"""Import z3 from the tooling venv without exposing the rest of its site-packages
(its numpy differs from the one pygsp runs with)."""
import importlib.machinery
import importlib.util
import os
import sys


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    for base in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
        path = os.path.join(base, 'z3', '__init__.py')
        if os.path.exists(path):
            spec = importlib.util.spec_from_file_location(
                'z3', path, submodule_search_locations=[os.path.dirname(path)])
            mod = importlib.util.module_from_spec(spec)
            sys.modules['z3'] = mod
            os.environ.setdefault('Z3_LIBRARY_PATH', os.path.join(base, 'z3', 'lib'))
            spec.loader.exec_module(mod)
            return mod
    import z3
    return z3


z3 = load()
