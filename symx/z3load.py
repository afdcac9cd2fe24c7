"""Load the z3 python binding from the tooling venv without adding that venv to sys.path."""
import importlib.util, os, sys
_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    spec = importlib.util.spec_from_file_location("z3", os.path.join(_DIR, "__init__.py"),
                                                  submodule_search_locations=[_DIR])
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)
    return m


z3 = load()
