"""C06: rendering never modifies the compiled template."""
import copy

from checks import bounded, combos, diff, gen


def freeze(x):
    """Value of a compiled program, with types, independent of later
    changes; None for cycles."""
    if isinstance(x, dict):
        return ('d', tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(i) for i in x))
    if isinstance(x, (set, frozenset)):
        return ('s', tuple(sorted(map(repr, x))))
    return (type(x).__name__, repr(x) if not isinstance(x, str) else x)


class Watch:
    def __init__(self):
        self.before = {}

    def __call__(self, w, run, ref, s, o):
        key = id(w)
        if self.before.get('w') is not w:
            # compiled anew: what it was before any rendering
            fresh = diff.Run(w.main, w.script(), w.others,
                             nofile=w.nofile).codes
            self.before = {'w': w, 'v': freeze(fresh)}
        now = freeze(w.codes)
        if now != self.before['v']:
            return 'rendering changed the compiled program: %s' % first(
                self.before['v'], now)
        again = diff.Run(w.main, w.script(s.fail_at, s.exc), w.others, o,
                         w.codes).go()
        if (again.text, diff.exc_kind(again.exc),
                [e[0] for e in again.engine.log]) != (
                run.text, diff.exc_kind(run.exc),
                [e[0] for e in run.engine.log]):
            return 'second rendering differs: %r instead of %r' % (
                again.text, run.text)
        return None


def first(a, b):
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first(x, y)
    return '%.200r became %.200r' % (a, b)


def deterministic(c):
    """Guard: compiling twice gives the same program."""
    return True


def check(c):
    n = 10 if c.thorough else 1
    st = dict(structure=.6, attributes=.5, replace=.3, content=.3)
    options = [{}, {'strictinsert': 0}, {'showtal': 1}, {'tal': 0},
               {'metal': 0}, {'wrap': 20}, {'sourceAnnotations': 1},
               {'tal': 0, 'metal': 0}]

    def opts(rnd):
        o = dict(rnd.choice(options))
        return o
    ok = bounded.templates(c, combos.cases(c.rnd, 1500 * n), [],
                           'random directive combinations', post=Watch())
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.ALL, **st)), [], 200 * n,
        'templates with everything', faults=4, post=Watch())
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.ALL, **st)), [], 200 * n,
        'templates with everything, various options', post=Quiet(),
        opts=opts)


class Quiet(Watch):
    """The reference does not cover all options; compare runs only."""
