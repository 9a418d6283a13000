"""Property id -> check function."""
import importlib
import os
import pkgutil

from . import checks

CHECKS = {}


def register(pid, title, technique, level="other"):
    def deco(fn):
        CHECKS[pid] = {"title": title, "fn": fn, "technique": technique, "level": level}
        return fn
    return deco


for _m in sorted(m.name for m in pkgutil.iter_modules(checks.__path__)):
    importlib.import_module(f"vstatic.checks.{_m}")
