"""Spreading independent recordings over processes."""
import multiprocessing
import os
import random
import sys
import traceback
import uuid
import zlib

from . import repo


class RepoError(Exception):
    """The code under test raised where it should not have."""


def _settle_chance(item):
    """The same item gives the same names, and so the same order of everything kept in sets."""
    rng = random.Random(zlib.crc32(repr(item).encode()))
    uuid.uuid4 = lambda: uuid.UUID(int=rng.getrandbits(128), version=4)
    random.seed(rng.getrandbits(32))


class _Guard:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, item):
        _settle_chance(item)
        try:
            return ("ok", self.fn(item))
        except Exception as exc:
            tb = traceback.format_exc()
            return ("repo" if repo.in_repo(sys.exc_info()[2]) else "err", "%r\n%s" % (exc, tb))


def pmap(fn, items, jobs=None, chunk=4):
    jobs = jobs or max(1, min(7, (os.cpu_count() or 2) - 1))
    ctx = multiprocessing.get_context("fork")
    res = []
    with ctx.Pool(jobs) as pool:
        for kind, r in pool.imap(_Guard(fn), items, chunksize=chunk):
            if kind == "repo":
                raise RepoError(r)
            if kind == "err":
                raise RuntimeError(r)
            res.append(r)
    return res
