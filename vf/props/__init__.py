"""Harness registry. Each module vf.props.cNN registers the harnesses of property CNN."""
import importlib
import os

REG = {}       # property -> {harness name: Harness}


class Harness:
    def __init__(self, prop, name, fn, configs, opts, cover, note, bounds):
        self.prop, self.name, self.fn = prop, name, fn
        self.configs, self.opts, self.cover = configs, opts, cover
        self.note, self.bounds = note, bounds


def register(prop, quick=({},), thorough=None, cover=(), bounds='', **opts):
    """quick / thorough: lists of configurations (dicts) of the harness. cover: labels that must be reached."""
    def deco(fn):
        REG.setdefault(prop, {})[fn.__name__] = Harness(
            prop, fn.__name__, fn, {'quick': list(quick), 'thorough': list(thorough if thorough is not None else quick)},
            opts, tuple(cover), (fn.__doc__ or '').strip(), bounds)
        return fn
    return deco


def load(prop):
    importlib.import_module('vf.props.' + prop.lower())
    return REG.get(prop, {})


def harness(prop, name):
    return load(prop)[name]


def all_props():
    here = os.path.dirname(__file__)
    return sorted(f[:-3].upper() for f in os.listdir(here) if f.startswith('c') and f[1:-3].isdigit())
