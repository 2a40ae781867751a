"""Registry: harness name -> function(env, **params); property id -> job list."""
import importlib

HARNESSES = {}
JOBS = {}
META = {}
MODULES = ["mp", "ns", "al", "lt", "cross", "codec", "forms", "family", "concurrent", "compat"]
_loaded = set()


def harness(fn):
    HARNESSES[fn.__name__] = fn
    return fn


def jobs(prop, db="sqlite", bounds="", functions=""):
    def deco(fn):
        JOBS[prop] = fn
        META[prop] = {"db": db, "bounds": bounds}
        return fn
    return deco


def load(names=MODULES):
    import os
    here = os.path.dirname(__file__)
    for n in names:
        if n not in _loaded and os.path.exists(os.path.join(here, n + ".py")):
            _loaded.add(n)
            importlib.import_module("vp.harness." + n)


def get(name):
    load()
    return HARNESSES[name]
