"""Compiles violations.h of the current tree and calls it (used when a counterexample is replayed)."""
import ctypes
import os
import subprocess
import tempfile

import numpy as np

_lib = None


def lib():
    global _lib
    if _lib is None:
        from .world import REPO
        d = tempfile.mkdtemp(prefix="vfviol")
        src = os.path.join(d, "v.cpp")
        with open(src, "w") as f:
            f.write('#include "%s/violations.h"\nextern "C" void vf_all(double*l,double*r,int k,int n,int m,double*v)'
                    '{computeAllViolations(l,r,k,n,m,v);}\n' % REPO)
        so = os.path.join(d, "v.so")
        subprocess.run(["g++", "-O1", "-shared", "-fPIC", "-o", so, src], check=True, capture_output=True)
        _lib = ctypes.CDLL(so)
        os.remove(src)
        os.remove(so)
        os.rmdir(d)
    return _lib


def compute(A, b):
    """The wrapper violations.pyx around the compiled function."""
    from . import pyx
    from .world import REPO
    return np.asarray(pyx.load(REPO, np, pyx.compiled(lib()))(A, b))
