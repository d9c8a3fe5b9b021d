"""The real code: /repo's modules imported natively, with the compiled C++ kernels (or a stub of their
types) provided as `interactions.{four,three}_particle.cpp.integral`."""
import importlib
import os
import sys
import warnings

from . import cppmod
from .loader import REPO

TOPS = ('common', 'environment', 'evolution', 'interactions', 'kawano', 'library', 'numericalunits',
        'particles', 'plotting', 'semianalytic')


class Native(object):
    def __init__(self):
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        warnings.simplefilter('ignore')
        import numpy
        numpy.seterr(all='ignore')
        self.install()

    def install(self):
        for k in (4, 3):
            name = 'interactions.%s_particle.cpp.integral' % ('four' if k == 4 else 'three')
            sys.modules[name] = cppmod.native_module(k)

    def mod(self, name):
        if name in ('cppfour', 'cppthree'):
            from . import cppnative
            return cppnative.module(4 if name == 'cppfour' else 3)
        return importlib.import_module(name)

    def fresh(self):
        for k in list(sys.modules):
            if k.split('.')[0] in TOPS:
                del sys.modules[k]
        self.install()
        return self
