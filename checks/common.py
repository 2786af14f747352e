"""Shared helpers for the process-level checks."""
import hashlib
import json
import os
import sys

from sim import core, patch
from sim.core import Sim, current
from sim.harness import Result

CFG = '/home/.lsl'


def setup_procsim():
    import numpy            # noqa: real, loaded before the seams
    import urllib.request, tarfile, gzip, json, uuid, glob, shutil, tempfile, calendar, zlib, bz2, lzma   # noqa
    import http.client, email.utils, textwrap, fnmatch, inspect, queue, logging, logging.handlers   # noqa
    patch.install()


def mk(plan, devs, **kw):
    s = Sim(plan['seed'], plan.get('swarm'), devs, **kw)
    for d in ('/home', '/cwd', '/tmp'):
        s.vfs.mkdirs(d)
    return s


def swarm(rng, crash=0.0, fault=0.0, jump=0.0, ops=True, kinds=None, gran=True):
    w = {'p_switch': rng.choice([0.02, 0.1, 0.3, 0.6]),
         'op_gap': rng.choice([0, 0, 8, 30, 120]) if ops else 0,
         'same_ident': rng.random() < 0.5}
    if crash and rng.random() < 0.6:
        w['p_crash'] = rng.choice([0.2, 1.0, 3.0]) * crash
    if fault and rng.random() < 0.6:
        w['p_fault'] = rng.choice([0.3, 1.0, 3.0]) * fault
        if kinds and rng.random() < 0.6:
            w['fault_kinds'] = rng.sample(kinds, rng.randint(1, len(kinds)))
    if jump and rng.random() < 0.3:
        w['p_jump'] = jump
    if gran and rng.random() < 0.3:
        w['gran'] = rng.choice([0.004, 1.0])
    return w


def finish(sim, res):
    sim.finish()
    res.from_sim(sim)
    h = hashlib.sha1()
    for l in sim.history:
        if l[3] not in ('clock-jump',):
            h.update(('%s %s %s' % (l[2], l[3], sorted((k, repr(v)) for k, v in l[4].items()))).encode())
    res.state = h.hexdigest()
    return res


class _LazyLock(core.SimLock):
    """the lock of an astropy lazyproperty (one for all threads and objects), without a life beyond one run"""

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        o = self._owner
        if o is not None and o != 'main' and (t is None or o.sim is not t.sim):
            self._owner, self._count = None, 0
        return core.SimLock.acquire(self, blocking, timeout)


def simulate_lazyproperty():
    """astropy holds a real lock while it computes a lazyproperty, which may read a file: put it under the scheduler"""
    import gc
    from astropy.utils.decorators import lazyproperty
    real = lazyproperty.__init__

    def init(self, *a, **k):
        real(self, *a, **k)
        self._lock = _LazyLock(True)
    lazyproperty.__init__ = init
    for x in gc.get_objects():
        if type(x) is lazyproperty:
            x._lock = _LazyLock(True)


class Stdin(object):
    """the standard input of all processes of a run: as it is, missing, closed, a terminal"""

    def __init__(self, how):
        self.how = how

    def isatty(self):
        if self.how == 'closed':
            raise ValueError('I/O operation on closed file')
        return self.how == 'tty'

    def __enter__(self):
        self.keep = sys.__stdin__
        if self.how not in (None, 'ok'):
            sys.__stdin__ = None if self.how == 'none' else self

    def __exit__(self, *a):
        sys.__stdin__ = self.keep


def stdin_kind(rng):
    return rng.choice(['ok'] * 12 + ['none', 'closed', 'tty'])
