"""The harness modules."""
import importlib
import os


def names():
    here = os.path.dirname(os.path.abspath(__file__))
    return sorted(f[:-3] for f in os.listdir(here)
                  if f.startswith('h_') and f.endswith('.py'))


def load_all():
    for n in names():
        importlib.import_module('harness.' + n)
