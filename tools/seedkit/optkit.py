"""Optimizers of synthetic problems in a separate process."""
import random, sys, types
from kit import *
pkg = types.ModuleType("labpkg")
pkg.__path__ = [str(HERE)]
core = types.ModuleType("labpkg.core")
core.SAN_ENV, core.OBSERVED, core.limits = {}, [], lambda: None
core.Result = lambda rc, out, err: types.SimpleNamespace(crash=lambda: err)
pkg.core = core
sys.modules["labpkg"], sys.modules["labpkg.core"] = pkg, core
import numpy as np
from labpkg.lab import Lab, OBJ, COST, PENALTY, CONS, GRAD, CJAC, STATES
from labpkg.toy import Toy


def toys(n, seed=1, fail=1e9, points=4, **want):
    """n synthetic problems with an optimizer each: (lab, toy, times, control times, constraint times, npr)"""
    exe = build("lab.cpp")
    with Lab(exe) as L:
        k = 0
        while n:
            k += 1
            toy = Toy(random.Random(1000 * seed + k), fail=fail)
            if any(getattr(toy, a) < v for a, v in want.items()):
                continue
            n -= 1
            npr = np.random.default_rng(k)
            times = np.linspace(0, 3.0, points)
            toy.tame(1.0)
            toy.send(L)
            yield L, toy, times, npr


def close(a, b, tol=1e-6):
    return np.allclose(a, b, rtol=tol, atol=tol)


def optimizer(L, toy, times, ct, gt, x):
    inf = np.full(len(ct) * toy.nc, 1e18), np.full(len(gt) * toy.ng, 1e18)
    L.opt(times, ct, gt, x, -inf[0], inf[0], -inf[1], inf[1])
