"""Runs under the repository's own interpreter: imports the real package and dumps the
class tables the verifier needs (MRO, class attributes, who defines which method)."""
import json, sys, warnings, inspect
warnings.simplefilter("ignore")
sys.path.insert(0, "/repo")
from collections.abc import Iterable
import rsm.nodes as N

def val(v):
    if v is None or isinstance(v, (bool, int, str, float)):
        return v
    if isinstance(v, type):
        return {"class": v.__name__}
    if isinstance(v, (set, frozenset)):
        return {"set": sorted((val(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True))}
    if isinstance(v, tuple):
        return {"tuple": [val(x) for x in v]}
    if isinstance(v, list):
        return {"list": [val(x) for x in v]}
    if isinstance(v, dict):
        return {"dict": [[val(k), val(x)] for k, x in v.items()]}
    return {"opaque": type(v).__name__}

def main():
    classes = [c for c in vars(N).values() if isinstance(c, type) and issubclass(c, N.Node)]
    names = [c.__name__ for c in classes]
    out = {"classes": {}, "order": names}
    for c in classes:
        assert getattr(N, c.__name__) is c
        d = {"bases": [b.__name__ for b in c.__bases__], "mro": [b.__name__ for b in c.__mro__],
             "defines": [], "attrs": {}, "iterable": issubclass(c, Iterable),
             "special": [m for m in ("__bool__", "__len__", "__getattr__", "__setattr__", "__getattribute__", "__eq__", "__slots__", "__new__") if m in vars(c)]}
        for k, v in vars(c).items():
            if k.startswith("__") and k.endswith("__") and k != "__init__" and k not in ("__eq__", "__repr__"):
                continue
            if inspect.isfunction(v) or isinstance(v, (property, classmethod, staticmethod)):
                d["defines"].append(k)
            else:
                d["attrs"][k] = val(v)
        out["classes"][c.__name__] = d
    out["all_node_subtypes"] = [c.__name__ for c in N.all_node_subtypes()]
    out["instances"] = {}
    for c in classes:
        try:
            o = c()
            out["instances"][c.__name__] = sorted(vars(o))
        except Exception as e:
            out["instances"][c.__name__] = {"error": repr(e)}
    json.dump(out, sys.stdout)
main()
