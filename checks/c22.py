"""C22: merging results keeps everything, later files win."""
import copy

from symx.runner import Case
from kerncraft import picklemerge

ASSUMPTIONS = ['pickle and the file system work (stand-ins)']


def build(ctx, name, depth, width):
    res = {}
    for k in range(width):
        kind = ctx.choice('%s%d' % (name, k), ['none', 'value'] + (['dict'] if depth else []))
        if kind == 'value':
            res[KEYS[k]] = ctx.int('%s%dv' % (name, k), -100, 100)
        elif kind == 'dict':
            res[KEYS[k]] = build(ctx, '%s%d' % (name, k), depth - 1, width if depth > 1 else 2)
    return res


KEYS = ['a', ('b', 1), 'c']


def merged(dicts):
    res = {}
    for d in dicts:
        for k, v in d.items():
            if isinstance(v, dict):
                old = res.get(k)
                res[k] = merged([old, v] if isinstance(old, dict) else [v])
            else:
                res[k] = v
    return res


def same(ctx, got, want):
    ctx.check(isinstance(got, dict) and sorted(got, key=str) == sorted(want, key=str), 'entries',
              '%s %s' % (got, want))
    for k, v in want.items():
        if isinstance(v, dict):
            same(ctx, got[k], v)
        else:
            ctx.check(got[k] == v, 'value')


def plain(d):
    return {k: plain(v) if isinstance(v, dict) else v for k, v in d.items()}


def h_update(ctx, depth, width):
    a, b = build(ctx, 'a', depth, width), build(ctx, 'b', depth, width)
    want, source = merged([a, b]), plain(b)
    got = picklemerge.update(a, b)
    same(ctx, got, want)
    ctx.check(got is a, 'merged in place')
    same(ctx, b, source)


class File:
    def __init__(self, data):
        self.data, self.at, self.log = [data], 0, []

    def seek(self, n):
        self.at = n
        self.log.append(('seek', n))

    def truncate(self):
        self.log.append(('truncate', self.at))
        if self.at == 0:
            self.data = []


def h_files(ctx, count):
    """the program"""
    data = [build(ctx, 'f%d' % n, 1 if n < 2 else 0, 2) for n in range(count)]
    want = merged(data)
    files = [File(plain(d)) for d in data]

    class Pickle:
        @staticmethod
        def load(f):
            f.at = 100
            return f.data[0]

        @staticmethod
        def dump(d, f):
            ctx.check(f.at == 0, 'written from the beginning')
            f.data = [d] + f.data
            f.at = 200
    picklemerge.pickle = Pickle

    class Parser:
        def __init__(self, *a, **k):
            pass

        def add_argument(self, *a, **k):
            pass

        def parse_args(self):
            return type('A', (), {'destination': files[0], 'source': files[1:]})
    real = picklemerge.argparse
    picklemerge.argparse = type('M', (), {'ArgumentParser': Parser, 'FileType': real.FileType})
    picklemerge.main()
    ctx.check(len(files[0].data) == 1, 'nothing of the former content left')
    same(ctx, files[0].data[0], want)
    for f, d in zip(files[1:], data[1:]):
        ctx.check(len(f.data) == 1, 'sources are not written')


def cases(tier):
    q = tier == 'quick'
    t = 100 if q else 1500
    return [Case('update-deep', h_update, depth=2, width=1, max_paths=50000, time=t,
                 reach=['value']),
            Case('update-wide', h_update, depth=1, width=2, max_paths=50000, time=t,
                 reach=['value'])] + ([] if q else [
                     Case('update-big', h_update, depth=1, width=3, max_paths=200000, time=t)]) + [
            Case('files-%d' % n, h_files, count=n, max_paths=50000, time=t)
            for n in ((2, 3) if q else (2, 3, 4))]
