"""Shared loop of the checks that parse generated configurations."""
import random

from .common import *
from . import asa, ios
from acltk.fwsmObjects import fwsmConfig
from acltk.iosObjects import iosConfig


def first_difference(exp, got, path=""):
    """path, expected, got of the first place where two plain values differ"""
    if type(exp) is type(got) and isinstance(exp, dict):
        for k in exp:
            if k not in got:
                return f"{path}[{k!r}]", exp[k], "missing"
            d = first_difference(exp[k], got[k], f"{path}[{k!r}]")
            if d:
                return d
        for k in got:
            if k not in exp:
                return f"{path}[{k!r}]", "nothing", got[k]
        if list(exp) != list(got) and path.endswith("order"):
            return path, list(exp), list(got)
        return None
    if isinstance(exp, (list, tuple)) and isinstance(got, (list, tuple)):
        for i, (a, b) in enumerate(zip(exp, got)):
            d = first_difference(a, b, f"{path}[{i}]")
            if d:
                return d
        if len(exp) != len(got):
            return f"len({path})", len(exp), len(got)
        return None
    return None if exp == got else (path, exp, got)


def compare(ctx, what, exp, got):
    d = first_difference(exp, got)
    if d:
        ctx.fail(f"{what}{d[0]}", d[1], d[2])
    return not d


def minimise(text, bad, seconds=25):
    """drop lines while the same thing goes wrong"""
    t0 = time.time()
    L = text.split("\n")
    n = max(1, len(L) // 2)
    while n:
        i = 0
        while i < len(L) and time.time() - t0 < seconds:
            t = L[:i] + L[i + n :]
            try:
                b = bad("\n".join(t))
            except Exception:
                b = False
            if b:
                L = t
            else:
                i += n
        n //= 2
    return "\n".join(L)


def parse(cls, s):
    with limit(30), silent():
        return cls.fromString(s)


def asa_loop(ctx, share, cap, judge, first=None, **kw):
    """judge(ctx, g, config) on generated ASA configurations"""
    n = 0
    while ctx.left(share) and n < cap:
        n += 1
        g = asa.Gen(ctx.rng)
        s = (first or (lambda g: g.config(**kw)))(g)
        ctx.case(s)
        judge(ctx, g, parse(fwsmConfig, s))


def ios_loop(ctx, share, cap, judge, **kw):
    n = 0
    while ctx.left(share) and n < cap:
        n += 1
        g = ios.Gen(ctx.rng)
        s = g.config(**kw)
        ctx.case(s)
        judge(ctx, g, parse(iosConfig, s))


def cap(ctx, quick):
    return 3 * quick if ctx.tier == "quick" else 10**9
