#!/opt/venv/bin/python
"""Compares the evaluator with CPython.

Every function of selftest_cases is evaluated once for all inputs, in fork
mode and in guarded mode.  Then concrete inputs are chosen: what CPython gives
must be among the results the paths allow (WRONG otherwise).  Where other
results are allowed too the evaluator is abstract, which can make a proof fail
but never succeed.  Constructs the evaluator refuses are listed; refusing is
safe.
"""
import inspect
import itertools
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
sys.dont_write_bytecode = True

import selftest_cases  # noqa: E402
from pyvc import core, explore  # noqa: E402
from pyvc.core import (Escaped, HDict, HList, Py, Ref, Sym,  # noqa: E402
                       SymRaise, Tup, Union, conj, strval, z3)

VALUES = {'i': [0, 1, 2, 3, 7, -4], 's': ['', 'a', 'b', 'k', 'x', ' ', 'xay'],
          'p': [True, False]}
KIND = {'i': 'i', 'j': 'i', 'k': 'i', 's': 's', 't': 's', 'u': 's',
        'p': 'p', 'q': 'p'}


core.SUBJECT += ('selftest_cases',)


class Unknown(Exception):
    pass


def guard(g):
    return z3.BoolVal(True) if g is None else g


def matches(heap, v, want):
    """Formula: the value v is the Python value want."""
    no = z3.BoolVal(False)
    if isinstance(v, Py):
        return z3.BoolVal(same(v.v, want))
    if isinstance(v, Sym):
        kind = {bool: 'bool', int: 'int', str: 'str'}.get(type(want))
        if v.kind == 'obj':
            raise Unknown('object')
        if kind != v.kind:
            return no
        return v.t == (strval(want) if kind == 'str' else want)
    if isinstance(v, Tup):
        if type(want) is not tuple or len(want) != len(v.items):
            return no
        return conj(*[matches(heap, x, w) for x, w in zip(v.items, want)])
    if isinstance(v, Union):
        return z3.Or(*[conj(g, matches(heap, a, want)) for g, a in v.alts])
    if isinstance(v, Ref):
        c = heap[v.addr]
        if isinstance(c, HList):
            if c.base is not None and not z3.is_int_value(z3.simplify(
                    c.base.length)):
                raise Unknown('base')
            items = [(None, c.base.at(z3.IntVal(i))) for i in range(
                z3.simplify(c.base.length).as_long())] if c.base else []
            items += c.items
            if type(want) is not list:
                return no
            return listed(heap, items, want)
        if isinstance(c, HDict):
            if c.base is not None:
                raise Unknown('base')
            if type(want) is not dict:
                return no
            return listed(heap, [(g, Tup((k, x))) for g, k, x in c.entries],
                          list(want.items()))
        raise Unknown('object')
    raise Unknown(type(v).__name__)


def listed(heap, items, want):
    if not items:
        return z3.BoolVal(not want)
    g, x = items[0]
    g = guard(g)
    r = conj(z3.Not(g), listed(heap, items[1:], want))
    if want:
        r = z3.Or(r, conj(g, matches(heap, x, want[0]),
                          listed(heap, items[1:], want[1:])))
    return z3.simplify(r)


def run(fn, guarded):
    """Paths: (constraints, heap, result or None, exception or None)."""
    names = list(inspect.signature(fn).parameters)
    paths = []

    def entry(I):
        args = []
        for n in names:
            f = {'i': I.fint, 's': I.fstr, 'p': I.fbool}[KIND[n]]
            args.append(f(n))
        I.simt = guarded
        v = exc = None
        try:
            v = I.call(Py(fn), args)
        except SymRaise as e:
            exc = e.exc
        except Escaped:
            pass
        for (g, e), n in zip(I.escapes, I.escape_pcs):
            paths.append((args, I.pc[:n] + [g], I.heap, None, e))
        if v is not None or exc is not None:
            paths.append((args, list(I.pc), I.heap, v, exc))
    x = explore.Explorer()
    x.max_seconds = 60
    x.run(entry, fn.__name__)
    return paths, x


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def compare(fn, guarded):
    paths, x = run(fn, guarded)
    if x.unsupported:
        return 'refused: %s' % x.unsupported[0], 0
    names = list(inspect.signature(fn).parameters)
    n = 0
    loose = None
    for vals in itertools.product(*[VALUES[KIND[k]] for k in names]):
        try:
            want = ('value', fn(*vals))
        except Exception as e:
            want = ('raise', type(e))
        allowed, n = [], n + 1
        for args, pc, heap, v, exc in paths:
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*pc)
            for a, val in zip(args, vals):
                s.add(a.t == (strval(val) if isinstance(val, str) else val))
            r = s.check()
            if r == z3.unsat:
                continue
            if r != z3.sat:
                return 'solver: %s' % (vals,), n
            if exc is not None:
                ok = z3.BoolVal(want[0] == 'raise' and exc.cls is want[1])
            elif want[0] == 'raise':
                ok = z3.BoolVal(False)
            else:
                try:
                    ok = matches(heap, v, want[1])
                except Unknown as e:
                    return 'not comparable: %s' % e, n
            allowed.append((s.check(ok) == z3.sat,
                            s.check(z3.Not(ok)) != z3.unsat))
        if not any(a for a, _ in allowed):
            return 'WRONG on %r: %r is not among the results' % (
                vals, want), n
        if any(b for _, b in allowed):
            loose = vals, want
    return loose and 'abstract on %r: %r is not the only result' % loose, n


def main():
    bad = 0
    total = 0
    only = sys.argv[1:]
    for name, fn in sorted(vars(selftest_cases).items()):
        if not inspect.isfunction(fn) or only and name not in only:
            continue
        if not all(k in KIND for k in inspect.signature(fn).parameters):
            continue
        for guarded in (False, True):
            r, n = compare(fn, guarded)
            total += n
            if r:
                print('%-16s %-8s %s' % (name, 'guarded' if guarded else
                                         'fork', r[:300]))
                bad += r.startswith('WRONG')
    print('%d inputs compared, %d wrong' % (total, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
