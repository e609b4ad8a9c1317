"""Contracts of the expression engine zope.tal comes with.

The interpreter is proved against any engine; here the one in dummyengine.py,
which message extraction is built on, is shown to keep its side.
"""
from pyvc.core import (HDict, HList, Obj, Py, Str, Sym, SymRaise,
                       SymSeq, Union, Unsupported, z3)
from checks.helpsym import Map, raised
from checks.initsym import Encoding, class_methods, recorder
from checks.isym import Rule, judged
from checks.optsym import Scene

Bool = z3.BoolSort()


def variables(I, name):
    """A dictionary with arbitrary contents"""
    has = z3.Function('has ' + name, Str, Bool)
    val = z3.Function('value in ' + name, Str, Obj)
    return I.alloc(HDict(base=Map(name, has, lambda t: Sym('obj', val(t)))))


def lookup(I, d, k):
    """(is k defined, its value) as terms"""
    c = I.cell(d)
    has, val = I.dict_has(d, c, k), I.dict_get(d, c, k, Py(None))
    if isinstance(has, Sym):
        has = has.t
    return z3.BoolVal(has) if isinstance(has, bool) else has, val


def alike(I, a, b):
    t = I.eq_term(a, b) if not isinstance(a, Union) and not isinstance(
        b, Union) else None
    if t is None:
        ts = []
        for g, x in (a.alts if isinstance(a, Union) else [(None, a)]):
            for h, y in (b.alts if isinstance(b, Union) else [(None, b)]):
                t = I.same(x, y) or I.eq_term(x, y)
                ts.append(z3.Implies(z3.And(
                    z3.BoolVal(True) if g is None else g,
                    z3.BoolVal(True) if h is None else h), t))
        t = z3.And(*ts)
    return z3.BoolVal(t) if isinstance(t, bool) else t


class Picture:
    """What a dictionary says about an arbitrary name."""

    def __init__(self, I, d, k):
        self.d, self.k = d, k
        self.has, self.val = lookup(I, d, k)

    def kept(self, I, d=None, unless=None):
        has, val = lookup(I, d or self.d, self.k)
        t = z3.And(has == self.has, z3.Implies(
            has, alike(I, val, self.val)))
        return t if unless is None else z3.Or(
            I.term(self.k, 'str') == unless, t)


def engine(I):
    """An engine somewhere in a rendering"""
    from zope.tal.dummyengine import DummyEngine
    g = variables(I, 'globals')
    where = I.decide(3)
    if where == 0:
        # nothing was ever defined locally
        loc, top, below = g, g, []
    else:
        loc = variables(I, 'locals')
        # does this scope have definitions of its own?
        top = loc if where == 1 else variables(I, 'outer')
        below = [g]
    st = I.new_list(below + [top])
    obj = I.new_obj(DummyEngine, {'globals': g, 'locals': loc, 'stack': st})
    return obj, g, loc, top, st


def scopes(I):
    w = Scene(I, 'DummyEngine')
    obj, g, loc, top, st = engine(I)
    stack0 = list(I.cell(st).items)
    n, v = I.fstr('name'), I.fobj('value')
    other = I.fstr('any name')
    pics = [Picture(I, d, other) for d in {g, loc, top}]
    f = I.cell(obj).fields
    call = lambda m, *a: I.call(I.getattr(obj, m), list(a))
    what = I.decide(4)
    try:
        if what == 0:
            before = Picture(I, loc, other)
            call('setLocal', n, v)
            now = f['locals']
            has, val = lookup(I, now, n)
            w.ok('a local variable is defined', z3.And(
                has, alike(I, val, v)))
            w.ok('other variables stay', before.kept(
                I, now, I.term(n, 'str')))
            for p in pics:
                if p.d != now:
                    w.ok('outer scopes stay', p.kept(I))
            w.ok('a scope gets variables of its own', now != top)
        elif what == 1:
            call('setGlobal', n, v)
            has, val = lookup(I, f['globals'], n)
            w.ok('a global variable is defined', z3.And(
                has, alike(I, val, v), z3.BoolVal(f['globals'] == g)))
            for p in pics:
                w.ok('other variables stay', p.kept(
                    I, None, I.term(n, 'str')) if p.d == g else p.kept(I))
            w.ok('local variables stay', f['locals'] == loc)
        elif what == 2:
            call('beginScope')
            for _ in range(I.decide(3)):
                call('setLocal', I.fstr('name'), I.fobj('value'))
            call('endScope')
            w.ok('the end of a scope brings the local variables back',
                 f['locals'] == loc)
            for p in pics:
                w.ok('outer scopes stay', p.kept(I))
        else:
            text = I.fstr('path')
            try:
                r = call('evaluatePathOrVar', text)
            except SymRaise as e:
                from zope.tal.taldefs import TALExpressionError
                w.ok('only an unknown variable fails',
                     e.exc.cls is TALExpressionError)
                I.x.cover(I, 'unknown variable')
                r = None
            k = I.call(I.getattr(text, 'strip'), [])
            hl, vl = lookup(I, loc, k)
            hg, vg = lookup(I, g, k)
            if r is None:
                w.ok('unknown', z3.Not(z3.Or(hl, hg)))
            else:
                w.ok('a known variable', z3.Or(hl, hg))
                w.ok('local variables come first', z3.Implies(
                    hl, alike(I, r, vl)))
                w.ok('then global ones', z3.Implies(
                    z3.And(z3.Not(hl), hg), alike(I, r, vg)))
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('scopes stay open', f['stack'] == st and len(
        I.cell(st).items) == len(stack0) and all(
            I.same(a[1], b[1]) for a, b in zip(I.cell(st).items, stack0)))
    I.x.cover(I, 'ends normally')


def repeating(I):
    """One round for each item, in their order."""
    from zope.tal.dummyengine import DummyEngine
    w = Scene(I, 'Iterator')
    n = I.fint('number of items')
    I.assume(n.t >= 0)
    at = z3.Function('item', z3.IntSort(), Obj)
    seq = I.alloc(HList(base=SymSeq('items', n.t, lambda i: Sym(
        'obj', at(i)))))
    said, m = recorder(I, 'engine', {'evaluateSequence': seq})
    obj = I.new_obj(DummyEngine, {
        k: I.getattr(said, k) for k in ('evaluateSequence', 'setLocal')})
    expr, name = I.fobj('expression'), I.fstr('name')
    try:
        it = I.call(I.getattr(obj, 'setRepeat'), [name, expr])
    except SymRaise as e:
        return raised(w, e, 'setRepeat does not fail')
    w.ok('the sequence is evaluated once', len(m.calls) == 1
         and m.calls[0][0] == 'evaluateSequence'
         and I.same(m.calls[0][1][0], expr))
    f = I.cell(it).fields
    nums = [k for k, v in f.items() if isinstance(v, Py)
            and isinstance(v.v, int) and not isinstance(v.v, bool)]
    if len(nums) != 1:
        raise Unsupported('place in the sequence')
    w.ok('the first item comes first', I.same(f[nums[0]], Py(0)))
    k = I.fint('k')
    I.assume(z3.And(k.t >= 0, k.t <= n.t))
    f[nums[0]] = k
    del m.calls[:]
    try:
        r = I.call(I.getattr(it, '__next__'), [])
    except SymRaise as e:
        return raised(w, e, '__next__ does not fail')
    t = I.truth(r)
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    w.ok('a round for each item', t == (k.t < n.t))
    if I.branch(k.t < n.t):
        w.ok('the variable is set to the item', len(m.calls) == 1
             and m.calls[0][0] == 'setLocal'
             and I.same(m.calls[0][1][0], name)
             and alike(I, m.calls[0][1][1], Sym('obj', at(k.t))))
        w.ok('the next item is next', I.term(f[nums[0]], 'int') == k.t + 1)
        I.x.cover(I, 'a round')
    else:
        w.ok('nothing is set after the last item', not m.calls)
    w.ok('the sequence stays', I.cell(seq).base.length.eq(n.t)
         and not I.cell(seq).items)
    I.x.cover(I, 'ends normally')


def values(I):
    """What an expression evaluates to is handed on."""
    from zope.i18nmessageid import Message
    from zope.tal import dummyengine
    w = Scene(I, 'DummyEngine')
    expr = I.fobj('expression')
    v = [Py(None), Py(dummyengine.Default), I.fstr('text'),
         Sym('str', I.fresh('message', Str), Message),
         Sym('obj', I.fresh('value', Obj), int, {'notnone': True})][
             I.decide(5)]
    if isinstance(v, Sym) and v.kind == 'obj':
        I.assume(v.t != I.const_obj(dummyengine.Default))
    said, m = recorder(I, 'engine', {'evaluate': v})
    obj = I.new_obj(dummyengine.DummyEngine,
                    {'evaluate': I.getattr(said, 'evaluate')})
    meth = ['evaluateText', 'evaluateValue', 'evaluateBoolean',
            'evaluateStructure', 'evaluateSequence'][I.decide(5)]
    try:
        r = I.call(I.getattr(obj, meth), [expr])
    except SymRaise as e:
        return raised(w, e, meth + ' does not fail')
    w.ok('%s: evaluated once' % meth, len(m.calls) == 1
         and I.same(m.calls[0][1][0], expr))
    if meth == 'evaluateText' and isinstance(v, Sym) and v.cls is int:
        w.ok('evaluateText: text', I.term(r, 'str') == I.term(
            I.to_str(v), 'str'))
    else:
        w.ok('%s: the value' % meth, I.same(r, v))
    I.x.cover(I, 'ends normally')


ENGINE = 'dummyengine', 'DummyEngine'

PARTS = {
    'engine scopes': (scopes, class_methods(
        *ENGINE, 'beginScope', 'endScope', 'setLocal', 'setGlobal',
        'evaluatePathOrVar')),
    'engine repetition': (repeating, lambda: class_methods(
        *ENGINE, 'setRepeat')() + class_methods(
            'dummyengine', 'Iterator', '__init__', '__next__')()),
    'engine values': (values, class_methods(
        *ENGINE, 'evaluateText', 'evaluateValue', 'evaluateBoolean',
        'evaluateStructure', 'evaluateSequence')),
}


#: said in terms of how the engine keeps its variables
INNER = {'engine scopes': lambda name: True}


def run(c, names, keep=None):
    for name in names:
        entry, fns = PARTS[name]
        try:
            x = Encoding()
            x.rule = None
            rule = Rule(x)
            x.loops = [(rule.pick, rule)]
            x.max_seconds = 60
            x.run(judged(entry), name)
        except Exception as e:
            c.undecide('%s: %s: %s' % (name, type(e).__name__, e))
            continue
        c.explorer(x, name, keep, aux=INNER.get(name))
        for f in fns():
            c.under_contract(f)
        if not x.obligations:
            c.undecide('%s: no obligations' % name)
        elif not x.covers.get('ends normally'):
            c.undecide('%s: no normal end' % name)
