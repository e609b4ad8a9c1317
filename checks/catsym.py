"""Contract of message extraction (C21).

POEngine.translate is run from an arbitrary catalog: any domains, any
messages, any positions.  What the code reads of the catalog is arbitrary,
what it writes is recorded, and every write has to be one of those the
property allows.
"""
import warnings

from pyvc.core import (ExcVal, HDict, HList, HObj, Method, Py, Ref, Sym,
                       SymRaise, SymSeq, Tup, Unsupported, z3)
from pyvc.explore import Explorer
from checks.ispec import normal
from checks.isym import Mismatch, Opaque, judged


class Judge:
    def __init__(self, I):
        self.I = I
        self.warned = 0
        self.added = []

    def ok(self, what, cond):
        if not self.I.prove('translate: ' + what, cond):
            raise Mismatch(what)


class Map(Opaque):
    """An unknown dictionary of which only one key may be touched."""

    def __init__(self, j, name, key, has, old):
        self.j, self.name, self.key, self.has = j, name, key, has
        self.old, self.new, self.newkey = old, None, None

    def mine(self, I, k):
        t = I.eq_term(k, self.key)
        if t is True or (not isinstance(t, bool) and not I.feasible(
                z3.Not(t))):
            return True
        return False

    def present(self, I):
        if self.new is not None:
            return z3.BoolVal(True)
        return self.has

    def contains(self, I, o, k):
        if not self.mine(I, k):
            return Sym('bool', I.fresh('other', z3.BoolSort()))
        return Sym('bool', self.present(I))

    def getitem(self, I, o, k):
        if not self.mine(I, k):
            raise Unsupported('another entry is read')
        if self.new is not None:
            return self.new
        if not I.branch(self.has):
            raise SymRaise(ExcVal(KeyError))
        return self.old

    def setitem(self, I, o, k, v):
        t = I.eq_term(k, self.key)
        self.j.ok('only the entry of the message is written: ' + self.name, t)
        if self.new is None:
            self.j.ok('what is recorded is not replaced: ' + self.name,
                      z3.BoolVal(v == self.old) if v == self.old
                      else z3.Not(self.has))
            if v != self.old:
                self.newkey = k
                self.new = v
        elif v != self.new:
            self.j.ok('a new entry is not replaced: ' + self.name, False)

    def delitem(self, I, o, k):
        self.j.ok('nothing is dropped: ' + self.name, False)

    def getattr(self, I, o, name):
        return Method(name, o)

    def call(self, I, o, name, args, kw):
        if name == 'get':
            d = args[1] if len(args) > 1 else Py(None)
            if not self.mine(I, args[0]):
                raise Unsupported('another entry is read')
            if I.branch(self.present(I)):
                return self.getitem(I, o, args[0])
            return d
        if name == 'setdefault':
            if not I.branch(self.present(I)):
                self.setitem(I, o, args[0], args[1])
            return self.getitem(I, o, args[0])
        if name in ('pop', 'clear', 'popitem'):
            self.j.ok('nothing is dropped: ' + self.name, False)
        raise Unsupported('dict.%s' % name)

    def to_list(self, I, o):
        return I.alloc(HObj(list, {}, model=Keys(self)))


class Keys(Opaque):
    """The keys of a domain."""

    name = 'keys'

    def __init__(self, m):
        self.m = m
        self.at = None

    def getattr(self, I, o, name):
        return Method(name, o)

    def call(self, I, o, name, args, kw):
        if name == 'index' and self.m.mine(I, args[0]):
            if self.m.new is not None or not I.branch(self.m.has):
                raise Unsupported('index of a new message')
            if self.at is None:
                self.at = I.fint('place')
                I.assume(self.at.t >= 0)
            return self.at
        raise Unsupported('keys.%s' % name)

    def getitem(self, I, o, k):
        if self.at is not None and I.same(k, self.at):
            return self.m.oldkey
        raise Unsupported('key at another place')


class Places(Opaque):
    name = 'positions'

    def __init__(self, j, base):
        self.j, self.base = j, base

    def getattr(self, I, o, name):
        return Method(name, o)

    def call(self, I, o, name, args, kw):
        if name == 'append':
            self.j.added.append(args[0])
            return Py(None)
        if name in ('clear', 'pop', 'remove'):
            self.j.ok('no position is dropped', False)
        raise Unsupported('list.%s' % name)

    def setitem(self, I, o, k, v):
        self.j.ok('no position is altered', False)

    def delitem(self, I, o, k):
        self.j.ok('no position is dropped', False)


def text(I, name, kinds):
    """None, a string or a Message."""
    from zope.i18nmessageid import Message
    k = kinds[I.decide(len(kinds))]
    if k is None:
        return Py(None)
    if k is str:
        return I.fstr(name)
    return Sym('str', I.fresh(name, z3.StringSort()), Message, {
        'default': text(I, name + '_default', (None, str)),
        'domain': I.fobj('msgdomain'), 'mapping': Py(None)})


def c_message(I, args, kw):
    """zope.i18nmessageid.Message(text, default=...)"""
    from zope.i18nmessageid import Message
    a = list(args)
    if len(a) > 1 or set(kw) - {'default', 'domain', 'mapping'}:
        raise Unsupported('arguments of Message')
    old = a[0].meta if isinstance(a[0], Sym) and a[0].cls is Message else {}
    d = kw.get('default', Py(None))
    if isinstance(d, Py) and d.v is None:
        d = old.get('default', Py(None))
    return Sym('str', I.term(a[0], 'str'), Message, {
        'default': d, 'domain': kw.get('domain', old.get('domain', Py(None))),
        'mapping': kw.get('mapping', Py(None))})


class CatExplorer(Explorer):
    def str_method(self, I, o, name, args, kw):
        if name == 'encode':
            # text is assumed to be encodable
            f = z3.Function('encode', z3.StringSort(), I.fobj('b').t.sort())
            return Sym('obj', f(I.term(o, 'str')), bytes, {'notnone': True})
        return Explorer.str_method(self, I, o, name, args, kw)

    def comp_model(self, I, e, gen, it, fr):
        if isinstance(it, Ref) and isinstance(I.cell(it), HObj) and \
                isinstance(I.cell(it).model, Places) and not gen.ifs:
            base = I.cell(it).model.base
            if I.decide(2):
                # an arbitrary item, to see that nothing fails
                k = I.fint('k')
                I.assume(z3.And(k.t >= 0, k.t < base.length))
                env = dict(fr.env)
                from pyvc.core import Frame, PathEnd
                sub = Frame(fr.fn, env, fr.glob, fr.parent)
                sub.masklen, sub.dead, sub.line = len(I.mask), [], e.lineno
                I.frames.append(sub)
                I.assign(gen.target, base.at(k.t), sub)
                I.ev(e.elt, sub)
                raise PathEnd()
            return I.alloc(HObj(list, {}, model=Opaque('texts')))
        return Explorer.comp_model(self, I, e, gen, it, fr)

    def join(self, I, sep, v):
        if isinstance(v, Ref) and isinstance(I.cell(v), HObj) and \
                getattr(I.cell(v).model, 'name', '') == 'texts':
            return I.fstr('joined')
        return Explorer.join(self, I, sep, v)


def record(I):
    """POEngine.translate from any state of the catalog."""
    from zope.i18nmessageid import Message
    from zope.tal.talgettext import POEngine
    j = Judge(I)
    msgid = text(I, 'msgid', (str, Message))
    default = text(I, 'default', (None, str, Message))
    domain = text(I, 'domain', (None, str))
    file, position = I.fstr('file'), I.fobj('position')
    n = I.fint('nplaces')
    I.assume(n.t >= 0)

    def place(k):
        return Tup((I.fstr('file'), I.fobj('position')))
    places = I.alloc(HObj(list, {}, model=Places(j, SymSeq('places', n.t,
                                                           place))))
    had = I.fresh('known', z3.BoolSort())
    oldkey = Sym('str', I.term(msgid, 'str'), Message, {
        'default': text(I, 'old_default', (None, str))})
    dom = Map(j, 'message', msgid, had, places)
    dom.oldkey = oldkey
    olddom = I.alloc(HObj(dict, {}, model=dom))
    hasdom = I.fresh('hasdomain', z3.BoolSort())
    I.assume(z3.Implies(had, hasdom))
    cat = Map(j, 'domain', domain, hasdom, olddom)
    catref = I.alloc(HObj(dict, {}, model=cat))
    self_ = I.new_obj(POEngine, {'catalog': catref, 'file': file})
    I.x.judge = j
    kw = {'domain': domain, 'mapping': I.fobj('mapping'),
          'default': default, 'position': position}
    try:
        exc = None
        try:
            I.call(I.getattr(self_, 'translate'), [msgid], kw)
        except SymRaise as e:
            exc = e.exc
        j.ok('does not fail: %s' % (exc.cls.__name__ if exc and exc.cls
                                    else ''), exc is None)
        I.x.cover(I, 'ends normally')
        judge(I, j, self_, catref, cat, dom, msgid, default, file, position,
              had, hasdom, oldkey)
    except Mismatch:
        pass


def judge(I, j, self_, catref, cat, dom, msgid, default, file, position, had,
          hasdom, oldkey):
    from zope.i18nmessageid import Message
    f = I.cell(self_).fields
    j.ok('same catalog', f['catalog'] == catref)
    j.ok('same file', I.same(f['file'], file))
    # the default that belongs to this occurrence
    want = default
    if not (isinstance(want, Py) and want.v is None):
        want = normal(I, want)
        if I.branch(want.t == I.term(msgid, 'str')):
            want = Py(None)
    if isinstance(want, Py) and msgid.cls is Message:
        want = msgid.meta['default']
    entry = Tup((file, position))
    known = I.branch(had)
    if known:
        j.ok('entry of a known message stays', cat.new is None
             and dom.new is None)
        j.ok('its position is added once', len(j.added) == 1)
        j.ok('position is file and position', eq(I, j.added[0], entry))
        d = I.eq_term(want, oldkey.meta['default'])
        j.ok('warning exactly if the defaults differ', (
            z3.Not(d) if not isinstance(d, bool) else z3.BoolVal(not d))
            == z3.BoolVal(j.warned == 1))
        I.x.cover(I, 'known message, warning' if j.warned else
                  'known message, no warning')
        return
    if I.branch(hasdom):
        j.ok('known domain stays', cat.new is None)
        k, v = dom.newkey, dom.new
        j.ok('new message is recorded', k is not None)
    else:
        d = cat.new
        j.ok('new domain is recorded', isinstance(d, Ref))
        c = I.cell(d)
        if not isinstance(c, HDict) or c.base is not None:
            raise Unsupported('form of the new domain')
        j.ok('new message is recorded', len(c.entries) == 1)
        k, v = c.entries[0][1:]
    j.ok('no warning', j.warned == 0)
    j.ok('message id', I.eq_term(k, msgid))
    j.ok('recorded as a message', isinstance(k, Sym) and k.cls is Message)
    j.ok('default text', I.eq_term(k.meta['default'], want))
    c = I.cell(v)
    if not isinstance(c, HList) or c.base is not None:
        raise Unsupported('form of the positions')
    j.ok('one position', len(c.items) == 1)
    j.ok('position is file and position', eq(I, c.items[0][1], entry))
    I.x.cover(I, 'new message')


def eq(I, a, b):
    if I.same(a, b):
        return True
    return I.eq_term(a, b)


def forward(I):
    """POTALInterpreter.translate passes everything on to the engine."""
    from zope.i18nmessageid import Message
    from zope.tal.talgettext import POTALInterpreter
    from checks.isym import World
    w = World(I, 1, cls=POTALInterpreter)
    I.x.judge = j = Judge(I)
    msgid = text(I, 'msgid', (str, Message))
    default = text(I, 'default', (None, str, Message))
    d = I.fobj('i18ndict', {'notnone': True})
    args = [msgid, default, d][:1 + I.decide(3)]
    exc = None
    try:
        I.call(I.getattr(w.self_, 'translate'), args)
    except SymRaise as e:
        exc = e.exc
    I.x.cover(I, 'passed on')
    try:
        ev = [e for e in w.events]
        j.ok('engine is asked once', len(ev) == 1
             and ev[0].kind == 'translate')
        e = ev[0]
        j.ok('no failure of its own', exc is e.raised)
        j.ok('message', eq(I, e.args[0], msgid))
        j.ok('domain', eq(I, e.args[1], I.getattr(
            w.fields0['i18nContext'], 'domain')))
        want = default if len(args) > 1 else Py(None)
        if isinstance(want, Py) and want.v is None:
            want = msgid.meta['default'] if msgid.cls is Message else msgid
        j.ok('default', eq(I, e.args[3], want))
        j.ok('position', len(e.args) == 5
             and I.same(e.args[4], w.fields0['position']))
    except Mismatch:
        pass


def run(c):
    from zope.i18nmessageid import Message
    from zope.tal.talgettext import POEngine, POTALInterpreter

    def warn(I, args, kw):
        I.x.judge.warned += 1
        return Py(None)
    for name, entry, fn in (
            ('POEngine.translate', record, POEngine.translate),
            ('POTALInterpreter.translate', forward,
             POTALInterpreter.translate)):
        try:
            x = CatExplorer(contracts={Message: c_message},
                            models={warnings.warn: warn})
            x.world = x.rule = None
            x.max_seconds = 120
            x.run(judged(entry), name)
        except Exception as e:
            c.undecide('%s: %s: %s' % (name, type(e).__name__, e))
            continue
        c.explorer(x, name)
        c.under_contract(fn)
        if not x.obligations:
            c.undecide('%s: no obligations' % name)
    c.assume('message texts can be encoded as UTF-8 and warnings.warn '
             'returns (no filter turns warnings into errors)',
             'zope.i18nmessageid.Message(text, default=d): equal to its '
             'text, has default d, or that of text if d is None')
