import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
_here = os.path.dirname(os.path.abspath(__file__))
PROPS = {}
for _f in sorted(os.listdir(_here)):
    if _f.endswith(".py") and not _f.startswith("_"):
        _m = importlib.import_module("props." + _f[:-3])
        for _n in vars(_m).values():
            if isinstance(_n, type) and getattr(_n, "ID", None) and _n.__module__ == _m.__name__:
                PROPS[_n.ID] = _n
