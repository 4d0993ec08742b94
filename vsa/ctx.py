"""Shared access to the analysed program, per configuration."""
from . import core
from .pyai import World, AnalysisError
from .pyvals import *  # noqa

CONFIGS = {
    'c': ({}, True),
    'pure': ({'PURE_PYTHON': '1'}, False),
    'watch': ({'ZOPE_WATCH_CHECKERS': '1'}, True),
    'watch2': ({'ZOPE_WATCH_CHECKERS': '2'}, True),
    'purewatch': ({'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': '1'}, False),
    'purewatch2': ({'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': '2'}, False),
    'noext': ({}, False),
    'zero': ({'PURE_PYTHON': '0', 'ZOPE_WATCH_CHECKERS': '0'}, True),
    'empty': ({'ZOPE_WATCH_CHECKERS': ''}, True),
    'watchword': ({'PURE_PYTHON': '0', 'ZOPE_WATCH_CHECKERS': 'on'}, True),
    'purewatchword': ({'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': 'on'},
                      False),
}


class Context:
    def __init__(self, src, tier):
        self.src = src
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.worlds = {}
        self._c = None
        self._centries = {}
        self.K = 3 if self.thorough else 2

    def world(self, config):
        if config not in self.worlds:
            env, c = CONFIGS[config]
            self.worlds[config] = World(self.src, env=env, c_ext=c)
        return self.worlds[config]

    def cprog(self):
        if self._c is None:
            from .cai import CProgram
            self._c = CProgram(self.src)
        return self._c

    def centries(self, name):
        """an extension module with all its entry points"""
        if name not in self._centries:
            from .centries import Analysed
            self._centries[name] = Analysed(self.cprog()[name], self.K)
        return self._centries[name]

    def functions(self):
        out = set()
        for w in self.worlds.values():
            out |= w.functions_analysed
        if self._c is not None:
            out |= self._c.functions_analysed
        return out

    def files(self):
        out = set()
        for w in self.worlds.values():
            out |= {m.path for m in w.modules.values()}
        if self._c is not None:
            out |= set(self._c.files)
        return out
