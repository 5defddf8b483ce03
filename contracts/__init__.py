"""all contracts"""
import importlib
import os

for _f in sorted(os.listdir(os.path.dirname(__file__))):
    if _f.startswith("c_") and _f.endswith(".py"):
        importlib.import_module("contracts." + _f[:-3])
