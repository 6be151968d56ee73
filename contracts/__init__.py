import importlib, os, pkgutil
def load_all(prefix=""):
    d = os.path.dirname(__file__)
    for m in sorted(os.listdir(d)):
        if m.endswith(".py") and not m.startswith("_"):
            importlib.import_module("contracts." + m[:-3])
