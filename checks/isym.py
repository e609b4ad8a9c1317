"""The interpreter under symbolic execution.

A World is an arbitrary state of a TALInterpreter together with models of the
engine and of output streams.  What the code does is recorded as a list of
events (expression evaluated, block interpreted, text written, variable set),
each with a snapshot of the state it happened in; a specification reads the
events with a Reader.
"""
import ast
import sys

from pyvc.core import (Bound, ExcVal, HDict, HList, HObj, Int, Method, Obj,
                       Obligation, PathEnd, Py, Ref, Sym, SymBreak, SymContinue, SymRaise,
                       SymSeq, Tup, Union, Unsupported, conj, strof, z3)
from pyvc.explore import Explorer

#: fields of the interpreter object this file knows about
CONFIG = ['program', 'macros', 'engine', 'Default', 'debug', 'wrap', 'metal',
          'tal', 'dispatch', 'showtal', 'strictinsert', 'stackLimit',
          'i18nInterpolate', 'sourceAnnotations']
STATE = ['_pending_source_annotation', '_currentTag', '_stream_stack',
         'stream', '_stream_write', 'html', 'endsep', 'endlen', 'macroStack',
         'inUseDirective', 'position', 'col', 'level', 'scopeLevel',
         'sourceFile', 'i18nStack', 'i18nContext']


class Other:
    """Class of objects that are not strings, numbers or None."""


class Event:
    def __init__(self, kind, args, snap, result=None):
        self.kind, self.args, self.snap = kind, args, snap
        self.result = result
        self.raised = None

    def __repr__(self):
        return '%s%r' % (self.kind, tuple(self.args))


class Opaque:
    """An object the code only passes on (a block, an expression ...)."""

    def __init__(self, name):
        self.name = name

    def getattr(self, I, o, name):
        return None

    def call(self, I, o, name, args, kw):
        raise Unsupported('method %s of %s' % (name, self.name))


class MacroProg(Opaque):
    """A compiled program obtained as a macro."""

    def __init__(self, I, name):
        self.name = name
        self.len = I.fresh('maclen', Int)
        I.assume(self.len >= 0)
        self.heads = [Tup((I.fstr('op'), I.fstr('arg'))) for _ in range(2)]

    def length(self, I, o):
        return Sym('int', self.len)

    def truth(self, I, o):
        return self.len > 0

    def getitem(self, I, o, k):
        if isinstance(k, Py) and k.v in (0, 1):
            if not I.branch(self.len > k.v):
                raise SymRaise(ExcVal(IndexError))
            return self.heads[k.v]
        raise Unsupported('macro item')

    def proper(self, html):
        """Compiled by this version for this document type."""
        from zope.tal.taldefs import TAL_VERSION
        from pyvc.core import strval
        h = self.heads
        return z3.And(self.len >= 2, h[0].items[0].t == strval('version'),
                      h[0].items[1].t == strval(TAL_VERSION),
                      h[1].items[0].t == strval('mode'),
                      h[1].items[1].t == z3.If(html, strval('html'),
                                               strval('xml')))


class Stream(Opaque):
    def __init__(self, w, name):
        self.w, self.name = w, name
        self.values = []

    def getattr(self, I, o, name):
        if name in ('write', 'getvalue', 'writelines'):
            return Method(name, o)
        return None

    def truth(self, I, o):
        return True

    def call(self, I, o, name, args, kw):
        if name == 'write':
            if self.name == 'stale':
                I.prove('nothing is written to a stream that is no longer '
                        'current', False)
                raise PathEnd()
            self.w.event('write', [o, args[0]])
            self.w.advance(o, args[0])
            return Py(None)
        if name == 'getvalue':
            r = I.fstr('contents')
            self.w.known(o, r)
            self.values.append((len(self.w.events), r))
            self.w.contents[str(r.t)] = (o, len(self.w.events))
            return r
        raise Unsupported('stream.%s' % name)


class Writer(Opaque):
    """A callable that writes to one stream, with or without annotation."""

    def __init__(self, w, stream):
        self.w, self.stream = w, stream
        self.name = 'writer'

    def call_self(self, I, o, args, kw):
        self.w.annotation(self.stream)
        I.call(Method('write', self.stream), args)
        return Py(None)


class Dispatch(Opaque):
    """A dispatch table; its handlers keep the handlers' common contract."""

    def __init__(self, w):
        self.w, self.name = w, 'dispatch'

    def getitem(self, I, o, k):
        return I.alloc(HObj(None, {}, model=Handler(self.w, k)))


class Handler(Opaque):
    def __init__(self, w, op):
        self.w, self.op, self.name = w, op, 'handler'

    def call_self(self, I, o, args, kw):
        w = self.w
        e = Event('handler', [self.op] + list(args), w.snap())
        w.events.append(e)
        w.havoc_flow()
        w.havoc_scopes()
        if I.decide(2):
            e.raised = ExcVal(None, t=I.fresh('exc', Obj))
            raise SymRaise(e.raised)
        return Py(None)


class Iterator(Opaque):
    def __init__(self, w, name='iterator'):
        self.w, self.name = w, name

    def next(self, I, o):
        return self.w.event('next', [o], raising=True,
                            result=lambda: I.fbool('more'))

    def getattr(self, I, o, name):
        if name == '__next__':
            return Method(name, o)
        return None

    def call(self, I, o, name, args, kw):
        if name == '__next__':
            return self.next(I, o)
        raise Unsupported('iterator.%s' % name)


class OpenDict(Opaque):
    """A dictionary with unknown contents that the code adds to."""

    def __init__(self, w, name):
        self.w, self.name = w, name
        self.items = []

    def setitem(self, I, o, k, v):
        self.items.append((k, v))
        self.w.event('dictset', [o, k, v])

    def getattr(self, I, o, name):
        if name in ('update', 'setdefault', 'get'):
            return Method(name, o)
        return None

    def truth(self, I, o):
        return I.fresh('nonempty', z3.BoolSort())

    def call(self, I, o, name, args, kw):
        if name == 'update':
            self.w.event('update', [o, args[0]])
            return Py(None)
        raise Unsupported('dict.%s' % name)


class OpenList(Opaque):
    def __init__(self, w, name):
        self.w, self.name = w, name

    def getattr(self, I, o, name):
        return Method(name, o)

    def call(self, I, o, name, args, kw):
        if name == 'append':
            return Py(None)
        raise Unsupported('list.%s' % name)


class SlotDict(Opaque):
    """The slots given with a macro use: never written to."""

    def __init__(self, w, name):
        self.w, self.name = w, name
        self.fillers = {}

    def _get(self, I, k):
        key = str(I.term(k, 'str'))
        if key not in self.fillers:
            has = I.fresh('hasslot', z3.BoolSort())
            self.fillers[key] = (has, self.w.block('filler'))
        return self.fillers[key]

    def getattr(self, I, o, name):
        if name in ('get', 'items', 'keys', 'update', 'pop', 'setdefault',
                    'copy'):
            return Method(name, o)
        return None

    def getitem(self, I, o, k):
        has, b = self._get(I, k)
        if not I.branch(has):
            raise SymRaise(ExcVal(KeyError))
        return b

    def contains(self, I, o, k):
        return Sym('bool', self._get(I, k)[0])

    def call(self, I, o, name, args, kw):
        if name == 'get':
            has, b = self._get(I, args[0])
            d = args[1] if len(args) > 1 else Py(None)
            return I.union([(has, b), (z3.Not(has), d)])
        if name in ('update', 'pop', 'setdefault'):
            I.frozen_write(o, 'compiled slots')
        raise Unsupported('slots.%s' % name)

    def setitem(self, I, o, k, v):
        I.frozen_write(o, 'compiled slots')


class EngineModel(Opaque):
    """The expression engine.  Bookkeeping calls do not raise; everything
    that evaluates may."""

    name = 'engine'
    EVAL = {'evaluate', 'evaluateText', 'evaluateBoolean', 'evaluateValue',
            'evaluateStructure', 'evaluateMacro', 'evaluateCode',
            'translate', 'setRepeat', 'getValue', 'createErrorInfo'}

    def __init__(self, w):
        self.w = w

    def getattr(self, I, o, name):
        return Method(name, o)

    def call(self, I, o, name, args, kw):
        w = self.w
        if name == 'beginScope':
            w.depth = z3.simplify(w.depth + 1)
            w.event('beginScope', [])
            return Py(None)
        if name == 'endScope':
            w.depth = z3.simplify(w.depth - 1)
            w.event('endScope', [])
            return Py(None)
        if name == 'setPosition':
            w.told_pos = args[0]
            return Py(None)
        if name == 'setSourceFile':
            w.told_file = args[0]
            return Py(None)
        if name in ('setLocal', 'setGlobal'):
            w.event(name, args)
            return Py(None)
        if name == 'getDefault':
            return w.default
        if name in self.EVAL:
            a = list(args)
            if name == 'translate':
                a += [Py(None)] * (3 - len(a))
                for i, k in enumerate(('msgid', 'domain', 'mapping')):
                    if k in kw:
                        a[i] = kw[k]
                a = a[:3] + [kw.get('default', a[3] if len(a) > 3
                                    else Py(None))]
                if 'position' in kw:
                    a.append(kw['position'])
            elif kw:
                raise Unsupported('keyword arguments of engine.%s' % name)
            return w.event(name, a, raising=name not in (
                'getValue', 'createErrorInfo'),
                result=lambda: w.answer(name))
        raise Unsupported('engine.%s' % name)


class Entry:
    """Symbolic base of macroStack: items are MacroStackItem lists."""

    def __init__(self, w, name):
        self.w, self.I, self.name = w, w.I, name
        self.ext = z3.Function(name + '_extending', Int, z3.BoolSort())
        self.has = z3.Function(name + '_has', Int, z3.StringSort(),
                               z3.BoolSort())
        self.fill = z3.Function(name + '_filler', Int, z3.StringSort(), Obj)
        self.cells = {}

    def at(self, i):
        key = str(z3.simplify(i))
        if key not in self.cells:
            self.cells[key] = self.I.alloc(
                HObj(self.w.item_class(), {}, model=StackItem(self, i)))
        return self.cells[key]


class StackItem(Opaque):
    """An entry of the macro stack at a symbolic place."""

    NAMES = ['macroName', 'slots', 'definingName', 'extending', 'entering',
             'i18nContext']

    def __init__(self, base, i):
        self.base, self.i = base, i
        self.name = 'stackitem'
        self.entering = None
        self.vals = {}

    def val(self, I, name):
        if name == 'entering':
            if self.entering is None:
                self.entering = I.fbool('entering')
            return self.entering
        if name not in self.vals:
            if name == 'extending':
                v = Sym('bool', self.base.ext(self.i))
            elif name == 'macroName':
                v = I.fstr('macroName')
            elif name == 'definingName':
                b = I.fresh('hasdef', z3.BoolSort())
                v = I.union([(b, I.fstr('defName')), (z3.Not(b), Py(None))])
            elif name == 'slots':
                v = I.alloc(HObj(None, {}, model=BaseSlots(self)))
            else:
                v = self.base.w.context('macctx')
            self.vals[name] = v
        return self.vals[name]

    def getattr(self, I, o, name):
        if name in self.NAMES:
            return self.val(I, name)
        return None

    def setattr(self, I, o, name, v):
        if name == 'entering':
            self.entering = v
            return True
        raise Unsupported('write to macro stack entry')

    def getitem(self, I, o, k):
        return self.val(I, self.NAMES[k.v])

    def setitem(self, I, o, k, v):
        return self.setattr(I, o, self.NAMES[k.v], v)


class BaseSlots(SlotDict):
    def __init__(self, item):
        self.item, self.name = item, 'slots'
        self.w = item.base.w

    def _get(self, I, k):
        t = I.term(k, 'str')
        b = self.item.base
        return b.has(self.item.i, t), Sym('obj', b.fill(self.item.i, t), None,
                                          {'truth': z3.BoolVal(True),
                                           'notnone': True})


class World:
    """An arbitrary interpreter state.  tal: processing on or off."""

    def __init__(self, I, tal, cls=None, **fixed):
        from zope.tal.talinterpreter import TALInterpreter
        self.I = I
        self.cls = cls or TALInterpreter
        self.tal = tal
        self.events = []
        self.contents = {}
        self.raising = True
        self.depth = I.fresh('depth', Int)
        self.default = I.fobj('Default', {'notnone': True})
        self.engine = I.alloc(HObj(None, {}, model=EngineModel(self)))
        self.html = I.fresh('html', z3.BoolSort())
        self.cols = {}
        self.exact = True
        s0 = self.stream('out')
        self.out = s0
        stack = I.alloc(HList(base=SymSeq('streams', self.nat('nstreams'),
                                          self.lazy(lambda i: self.stream(
                                              'outer')))))
        units = I.alloc(HList(base=SymSeq(
            'units', self.nat('nunits'), self.lazy(self.unit))))
        entry = Entry(self, 'macs')
        self.entry = entry
        macs = I.alloc(HList(base=SymSeq('macs', self.nat('nmacs'),
                                         entry.at)))
        self.ctx = self.context('ctx')
        f = {
            'program': self.block('program'),
            'macros': I.fobj('macros'),
            'engine': self.engine, 'Default': self.default,
            'debug': Py(0), 'wrap': Sym('int', self.nat('wrap')),
            'metal': I.fbool('metal'), 'tal': Py(1 if tal else 0),
            'showtal': I.fbool('showtal'),
            'strictinsert': I.fbool('strictinsert'),
            'stackLimit': Sym('int', self.nat('stackLimit')),
            'i18nInterpolate': I.fbool('i18nInterpolate'),
            'sourceAnnotations': I.fbool('sourceAnnotations'),
            'dispatch': Py(self.cls.bytecode_handlers_tal if tal
                           else self.cls.bytecode_handlers),
            '_pending_source_annotation': I.fbool('pending'),
            '_currentTag': I.fstr('currentTag'),
            '_stream_stack': stack, 'stream': s0,
            '_stream_write': I.alloc(HObj(None, {},
                                          model=Writer(self, s0))),
            'html': Sym('bool', self.html),
            'macroStack': macs, 'inUseDirective': I.fbool('inUse'),
            'position': Tup((I.fobj('lineno'), I.fobj('offset'))),
            'col': I.fint('col'), 'level': I.fint('level'),
            'scopeLevel': I.fint('scopeLevel'),
            'sourceFile': I.fobj('file'),
            'i18nStack': units, 'i18nContext': self.ctx,
        }
        from pyvc.core import strval
        f['endsep'] = Sym('str', z3.If(self.html, strval(' />'),
                                       strval('/>')), str)
        f['endlen'] = Sym('int', z3.If(self.html, z3.IntVal(3),
                                       z3.IntVal(2)))
        I.assume(I.term(f['level'], 'int') >= 0)
        I.assume(I.term(f['scopeLevel'], 'int') >= 0)
        f.update(fixed)
        self.fields0 = dict(f)
        self.cols[s0] = (None, I.term(f['col'], 'int'))
        self.self_ = I.new_obj(self.cls, f)
        self.told_pos = f['position']
        self.told_file = f['sourceFile']
        self.macs0 = (macs, I.cell(macs).base)
        self.units0 = (units, I.cell(units).base)
        self.streams0 = (stack, I.cell(stack).base)
        self.depth0 = self.depth
        self.snap0 = self.snap()

    # ------------------------------------------------------------ building
    def item_class(self):
        from zope.tal import talinterpreter
        return talinterpreter.MacroStackItem

    def nat(self, name):
        t = self.I.fresh(name, Int)
        self.I.assume(t >= 0)
        return t

    def lazy(self, make):
        memo = {}

        def at(i):
            k = str(z3.simplify(i))
            if k not in memo:
                memo[k] = make(i)
            return memo[k]
        return at

    def stream(self, name):
        return self.I.alloc(HObj(None, {}, model=Stream(self, name)))

    def unit(self, i):
        I = self.I
        return Tup((I.alloc(HObj(dict, {}, model=OpenDict(self, 'unitdict'))),
                    I.alloc(HObj(list, {}, model=OpenList(self, 'srepr')))))

    def block(self, name):
        return self.I.alloc(HObj(list, {}, frozen=True, model=Opaque(name)))

    def expr(self, name='expr'):
        return self.other(name)

    def other(self, name):
        I = self.I
        v = Sym('obj', I.fresh(name, Obj), Other, {'notnone': True})
        I.assume(v.t != self.default.t)
        I.assume(v.t != I.const_obj(''))
        return v

    def context(self, name):
        from zope.tal.translationcontext import TranslationContext
        I = self.I
        b = I.fresh('hasparent', z3.BoolSort())
        return I.new_obj(TranslationContext, {
            'domain': I.fstr(name + '_domain'),
            'target': I.fobj('target'), 'source': I.fobj('source'),
            'parent': I.union([(b, I.alloc(HObj(
                TranslationContext, {}, model=Opaque('ctxparent')))),
                (z3.Not(b), Py(None))])})

    def text(self, kinds=('none', 'default', 'str', 'message')):
        """A value as evaluateText may give it."""
        from zope.i18nmessageid import Message
        I = self.I
        k = kinds[I.decide(len(kinds))]
        if k == 'none':
            return Py(None)
        if k == 'default':
            return self.default
        if k == 'message':
            return self.message()
        return I.fstr('text')

    def message(self):
        from zope.i18nmessageid import Message
        I = self.I
        return Sym('str', I.fresh('message', z3.StringSort()), Message, {
            'default': I.fobj('msgdefault'), 'domain': I.fobj('msgdomain')})

    def answer(self, name):
        I = self.I
        if name == 'evaluateText':
            return self.text()
        if name == 'evaluateStructure':
            k = I.decide(5)
            if k < 4:
                return self.text(('none', 'default', 'str', 'message')[k:k + 1
                                                                       ])
            return self.other('structure')
        if name == 'evaluateBoolean':
            if I.decide(2):
                return self.default
            return self.other('bool')
        if name == 'evaluateMacro':
            if I.decide(2):
                return self.default
            m = I.alloc(HObj(list, {}, frozen=True,
                             model=MacroProg(I, 'macro')))
            return m
        if name in ('translate', 'evaluateCode'):
            return I.fstr(name)
        if name == 'setRepeat':
            return I.alloc(HObj(None, {}, model=Iterator(self)))
        return I.fobj(name)

    # ------------------------------------------------------------ recording
    def f(self, name):
        return self.I.cell(self.self_).fields.get(name)

    def set(self, name, v):
        self.I.cell(self.self_).fields[name] = v

    def snap(self):
        s = {n: self.f(n) for n in STATE}
        s['depth'] = self.depth
        s['told_pos'], s['told_file'] = self.told_pos, self.told_file
        for n in ('macroStack', 'i18nStack', '_stream_stack'):
            c = self.I.cell(s[n]) if isinstance(s[n], Ref) else None
            s[n + '*'] = (c.base, list(c.items)) if isinstance(
                c, HList) else None
        return s

    def event(self, kind, args, raising=False, result=None):
        I = self.I
        e = Event(kind, list(args), self.snap())
        self.events.append(e)
        if raising and self.raising and I.decide(2):
            e.raised = ExcVal(None, t=I.fresh('exc', Obj))
            raise SymRaise(e.raised)
        if result is not None:
            e.result = result()
            return e.result
        return Py(None)

    # ------------------------------------------------------------ columns
    def column(self, stream):
        """The column the text written to a stream so far ends in."""
        if stream not in self.cols:
            self.cols[stream] = (None, self.I.fresh('column', Int))
        return self.cols[stream][1]

    def advance(self, stream, s):
        c = self.column(stream)
        self.cols[stream] = (self.cols[stream][0], column(self.I, c, s))

    def known(self, stream, s):
        """s is all that has been written to a stream."""
        start, c = self.cols.get(stream, (None, None))
        if start is not None:
            self.I.assume(column(self.I, start, s) == c)

    def annotation(self, stream):
        """A source annotation may be written."""
        I = self.I
        f = z3.Function(str(I.fresh('annotated', Int)), Int, Int)
        c = self.column(stream)
        self.cols[stream] = (self.cols[stream][0], f(c))
        self.set('col', Sym('int', f(I.term(self.f('col'), 'int'))))

    def in_step(self, when):
        self.I.prove('column of the output is kept count of ' + when,
                     self.I.term(self.f('col'), 'int') ==
                     self.column(self.f('stream')))

    # ------------------------------------------------------------ contracts
    def havoc_flow(self):
        I = self.I
        self.in_step('when a part is interpreted')
        s = self.f('stream')
        self.set('position', Tup((I.fobj('lineno'), I.fobj('offset'))))
        self.set('col', I.fint('col'))
        self.cols[s] = (self.cols[s][0], I.term(self.f('col'), 'int'))
        self.set('_currentTag', I.fstr('currentTag'))
        self.set('_pending_source_annotation', I.fbool('pending'))
        f = I.fobj('file')
        self.set('sourceFile', f)
        self.told_file = f
        self.told_pos = self.f('position')
        for cell in list(I.heap.values()):
            if isinstance(cell, HObj) and isinstance(cell.model, StackItem):
                cell.model.entering = None
        c = I.cell(self.f('macroStack'))
        for g, x in c.items:
            if isinstance(x, Ref) and isinstance(I.cell(x), HList):
                it = I.cell(x).items
                if len(it) == 6:
                    it[4] = (None, I.fbool('entering'))
        # open translation units collect names
        c = I.cell(self.f('i18nStack'))
        for g, x in c.items:
            if isinstance(x, Tup) and isinstance(x.items[0], Ref):
                d = I.cell(x.items[0])
                if isinstance(d, HDict):
                    I.heap[x.items[0].addr] = HObj(
                        dict, {}, model=OpenDict(self, 'unitdict'))
                d = I.cell(x.items[1])
                if isinstance(d, HList):
                    I.heap[x.items[1].addr] = HObj(
                        list, {}, model=OpenList(self, 'srepr'))

    def havoc_scopes(self):
        I = self.I
        sl = I.fint('scopeLevel')
        I.assume(sl.t >= 0)
        d = self.depth - I.term(self.f('scopeLevel'), 'int')
        self.depth = z3.simplify(sl.t + d)
        self.set('scopeLevel', sl)
        self.set('i18nContext', self.context('ctx'))

    def c_call(self, I, name, args):
        """interpret(), or something that ends in it."""
        self.good_writer('before interpreting a block')
        e = Event(name, args, self.snap())
        self.events.append(e)
        self.havoc_flow()
        if self.raising and I.decide(2):
            k = self.nat('open')
            self.set('scopeLevel', Sym('int', I.term(self.f('scopeLevel'),
                                                     'int') + k))
            self.depth = self.depth + k
            self.set('i18nContext', self.context('ctx'))
            self.set('stream', self.stream('stale'))
            self.set('_stream_write', I.alloc(HObj(None, {}, model=Writer(
                self, self.f('stream')))))
            e.raised = ExcVal(None, t=I.fresh('exc', Obj))
            raise SymRaise(e.raised)
        # what was written goes to the stream that was current
        self.set('_stream_write', I.alloc(HObj(None, {}, model=Writer(
            self, self.f('stream')))))
        return Py(None)

    def c_annotated(self, I, self_, s):
        self.annotation(self.f('stream'))
        return I.call(Method('write', self.f('stream')), [s])

    def c_stream_write(self, I, s):
        I.call(self.f('_stream_write'), [s])
        self.set('col', Sym('int', column(I, I.term(self.f('col'), 'int'),
                                          s)))
        return Py(None)

    def c_stringio(self, I, self_):
        # text in a buffer counts from where it will be written
        s = self.stream('buffer')
        c = I.term(self.f('col'), 'int')
        self.cols[s] = (c, c)
        return s

    def good_writer(self, when):
        """self._stream_write writes to self.stream."""
        I = self.I
        w, s = self.f('_stream_write'), self.f('stream')
        ok = False
        if isinstance(w, Method) and w.name == 'write':
            ok = w.self == s
        elif isinstance(w, Bound):
            ok = w.fn is self.cls._annotated_stream_write
        elif isinstance(w, Ref) and isinstance(I.cell(w).model, Writer):
            ok = I.cell(w).model.stream == s
        I.prove('output goes to the current stream ' + when, ok)

    # ------------------------------------------------------------ stacks
    def same_list(self, name, start):
        """Condition: the list object and its entries are those at the
        start (entering flags excepted)."""
        I = self.I
        ref, base = start
        cur = self.f(name)
        if not isinstance(cur, Ref) or cur != ref:
            return False
        c = I.cell(cur)
        return same_seq(I, c.base, c.items, base, [])


def column(I, c, s):
    """Where text ends that starts in column c."""
    s = I.term(s, 'str')
    if z3.is_string_value(s):
        v = strof(s)
        return c + len(v) if '\n' not in v else z3.IntVal(
            len(v) - v.rindex('\n') - 1)
    t = z3.Function('column', Int, z3.StringSort(), Int)(c, s)
    r = z3.Function('rfind', z3.StringSort(), z3.StringSort(), Int)(
        s, z3.StringVal('\n'))
    n = z3.Length(s)
    I.assume(z3.And(r >= -1, r < n))
    if I.x.world.exact:
        I.assume((r < 0) == z3.Not(z3.Contains(s, z3.StringVal('\n'))))
    I.assume(t == z3.If(r < 0, c + n, n - (r + 1)))
    return t


def same_seq(I, base, items, base0, items0):
    """Same sequence of objects?  (a term or a Python bool)"""
    if base is base0 and len(items) == len(items0):
        return conj_all(same(I, a[1], b[1]) for a, b in zip(items, items0))
    n = (base.length if base is not None else z3.IntVal(0)) + len(items)
    n0 = (base0.length if base0 is not None else z3.IntVal(0)) + len(items0)
    if base is None or base0 is None or items or items0:
        if z3.is_true(z3.simplify(n == n0)):
            raise Unsupported('comparison of stacks')
        return n == n0
    # equal length and the same object at an arbitrary place
    k = I.fresh('k', Int)
    return z3.And(n == n0, z3.Implies(
        z3.And(k >= 0, k < n0), as_term(same(I, base.at(k), base0.at(k)))))


def as_term(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def conj_all(ts):
    return z3.And(*[as_term(t) for t in ts])


def same(I, a, b):
    """The same object?  (a term or a Python bool)"""
    if I.same(a, b):
        return True
    if isinstance(a, Union):
        return z3.And(*[z3.Implies(conj(g), as_term(same(I, x, b)))
                        for g, x in a.alts])
    if isinstance(b, Union):
        return same(I, b, a)
    if isinstance(a, Ref) and isinstance(b, Ref):
        ca, cb = I.cell(a), I.cell(b)
        if isinstance(ca, HObj) and isinstance(ca.model, StackItem) and \
                isinstance(cb, HObj) and isinstance(cb.model, StackItem):
            if ca.model.base is not cb.model.base:
                return False
            return ca.model.i == cb.model.i
        return False
    if isinstance(a, Tup) and isinstance(b, Tup) and \
            len(a.items) == len(b.items):
        return conj_all(same(I, x, y) for x, y in zip(a.items, b.items))
    return I.is_term(a, b)


class Mismatch(Exception):
    pass


class Reader:
    """Reads the events of one path against a specification."""

    #: bookkeeping that shows in the snapshots
    SILENT = {'beginScope', 'endScope'}

    def __init__(self, w, name, raised=None):
        self.w, self.I, self.name = w, w.I, name
        self.raised = raised
        self.i = 0
        self.ev = [e for e in w.events if e.kind not in self.SILENT]
        self.wrote = {}

    def bad(self, what):
        self.I.prove('%s: %s' % (self.name, what), False)
        raise Mismatch(what)

    def ok(self, what, cond=True):
        if not self.I.prove('%s: %s' % (self.name, what), cond):
            raise Mismatch(what)

    def peek(self):
        return self.ev[self.i] if self.i < len(self.ev) else None

    def next(self, kind, *args):
        """The next event must be this one; returns it.  If it raised, the
        specification ends here."""
        e = self.take(kind, *args)
        if e.raised is not None:
            self.last_raised = e
            raise Stopped()
        return e

    def take(self, kind, *args):
        """The next event must be this one; returns it."""
        e = self.peek()
        if e is None:
            self.bad('%s missing' % kind)
        if e.kind != kind:
            self.bad('%s where %s is expected' % (e.kind, kind))
        self.i += 1
        for j, a in enumerate(args):
            if a is not None:
                if j >= len(e.args):
                    self.bad('%s: argument %d missing' % (kind, j))
                self.same('%s: argument %d' % (kind, j), e.args[j], a)
        return e

    def same(self, what, a, b):
        I = self.I
        if I.same(a, b):
            self.ok(what)
            return
        t = I.eq_term(a, b)
        self.ok(what, t)

    def escapes(self, what, text, value, kind):
        """text is the escaped form (kind 'text') or the quoted form (kind
        'attr') of value; decided with transducers for every string."""
        from checks import escape
        I = self.I
        t, v = I.term(text, 'str'), I.term(value, 'str')
        for name, st, dt in escape.decide(I, t, v, kind):
            o = Obligation('%s: %s: %s' % (self.name, what, name), st, dt,
                           I.where(), str(t)[:500],
                           list(I.decisions[:I.dpos]), 'fst')
            I.x.obligations.append(o)
            if st != 'discharged':
                raise Mismatch(what)

    def writes(self, stream, text=None):
        """All writes that follow, up to another kind of event, go to this
        stream; returns (and compares) the text."""
        parts = []
        while self.peek() is not None and self.peek().kind == 'write':
            e = self.peek()
            self.i += 1
            self.ok('written to the right stream', e.args[0] == stream)
            parts.append(e.args[1])
        t = self.I.concat(parts) if parts else Py('')
        if text is not None:
            self.same('text written', t, text)
        return t

    def end(self):
        e = self.peek()
        if e is not None:
            self.bad('unexpected %s' % e.kind)
        self.ok('nothing else happens')

    def truth(self, v):
        t = self.I.truth(v)
        return t if isinstance(t, bool) else self.I.branch(t)


class Stopped(Exception):
    """The specification has been followed up to the exception."""


def assigned(s):
    """Names of local variables a loop statement may assign."""
    return {n.id for n in ast.walk(s) if isinstance(n, ast.Name)
            and isinstance(n.ctx, (ast.Store, ast.Del))}


def forget_locals(I, s, fr):
    """Forget the values of the local variables the loop assigns."""
    for n in assigned(s):
        v = fr.env.get(n)
        if v is None:
            continue
        p = I._prim(v)
        if p is None or p[0] == 'obj':
            if isinstance(v, Py) and v.v is None or isinstance(v, Union):
                fr.env[n] = Sym('obj', I.fresh(n, Obj))
            else:
                del fr.env[n]
        else:
            fr.env[n] = Sym(p[0], I.fresh(n, {
                'int': Int, 'bool': z3.BoolSort(), 'str': z3.StringSort(),
                'real': z3.RealSort()}[p[0]]), p[1])


class LoopRule:
    """Invariant rule for loops.

    forget(I, fr, w): forget the part of the state the loop may change
    inv(I, fr, w) -> pairs (name, term): the invariant
    each(I, w, events): judge the events of one iteration
    writes(I, w): heap locations the body may write (besides objects made
    in the same iteration)"""

    def __init__(self, w, forget, inv=None, each=None, writes=None,
                 pred=None):
        self.w, self.forget = w, forget
        self.inv = inv or (lambda *a: [])
        self.each, self.pred = each, pred
        self.writes = writes or (lambda I, w: ())

    def start(self, I, s, fr):
        for n, t in self.inv(I, fr, self.w):
            I.prove('loop invariant holds at first: ' + n, t)
        self.before(I, fr, self.w)
        forget_locals(I, s, fr)
        self.forget(I, fr, self.w)
        for n, t in self.inv(I, fr, self.w):
            I.assume(t)

    def before(self, I, fr, w):
        pass

    def body(self, I, s, fr):
        """One arbitrary iteration; True if the loop is left by break."""
        w = self.w
        new = I.next_addr
        allowed = set(self.writes(I, w))
        names = assigned(s)
        old = I.watch

        def watch(loc):
            if loc[0] == 'var':
                if loc[1] == id(fr) and loc[2] not in names:
                    raise Unsupported('loop assigns %s' % loc[2])
            elif loc[1] < new and loc not in allowed:
                raise Unsupported('loop changes %s' % (loc,))
            if old is not None:
                old(loc)
        I.watch = watch
        try:
            I.exec_block(s.body, fr)
        except SymContinue:
            pass
        except SymBreak:
            return True
        finally:
            I.watch = old
        return False

    def again(self, I, fr, n0):
        w = self.w
        for n, t in self.inv(I, fr, w):
            I.prove('loop invariant is kept: ' + n, t)
        if self.each:
            self.each(I, w, w.events[n0:])
        raise PathEnd()


class WhileRule(LoopRule):
    def run_while(self, I, s, fr):
        self.start(I, s, fr)
        n0 = len(self.w.events)
        t = I.truth(I.ev(s.test, fr))
        if not (t if isinstance(t, bool) else I.branch(t)):
            I.exec_block(s.orelse, fr)
            return
        if not self.body(I, s, fr):
            self.again(I, fr, n0)


class ForRule(LoopRule):
    """item(I, it, k): the k-th item; length(I, it)."""

    def __init__(self, w, forget, length, item, **kw):
        LoopRule.__init__(self, w, forget, **kw)
        self.length, self.item = length, item

    def run_for(self, I, s, fr, it):
        self.k = z3.IntVal(0)
        self.start_for(I, s, fr, it)
        n = self.length(I, it)
        n0 = len(self.w.events)
        if not I.branch(self.k < n):
            I.assume(self.k == n)
            I.exec_block(s.orelse, fr)
            return
        self.cur = self.item(I, it, self.k)
        I.assign(s.target, self.cur, fr)
        if self.body(I, s, fr):
            return
        self.k = z3.simplify(self.k + 1)
        self.again(I, fr, n0)

    def start_for(self, I, s, fr, it):
        for n, t in self.inv(I, fr, self.w):
            I.prove('loop invariant holds at first: ' + n, t)
        self.before(I, fr, self.w)
        forget_locals(I, s, fr)
        self.forget(I, fr, self.w)
        self.k = I.fresh('k', Int)
        I.assume(self.k >= 0)
        for n, t in self.inv(I, fr, self.w):
            I.assume(t)


class CloseScopes(WhileRule):
    """while more scopes are open than at the goal: close one"""

    def __init__(self, w, goal):
        def forget(I, fr, w):
            w.set('scopeLevel', I.fint('scopeLevel'))
            w.depth = I.fresh('depth', Int)
        WhileRule.__init__(self, w, forget, self.invariant,
                           writes=lambda I, w: [('field', w.self_.addr,
                                                 'scopeLevel')])
        self.goal, self.diff = goal, None

    def before(self, I, fr, w):
        self.diff = z3.simplify(w.depth - I.term(w.f('scopeLevel'), 'int'))

    def invariant(self, I, fr, w):
        sl = I.term(w.f('scopeLevel'), 'int')
        if self.diff is not None:
            yield 'engine scopes go with the count', w.depth - sl == self.diff
        yield 'no scope of the surroundings is closed', sl >= self.goal


def judged(entry):
    """A mismatch has been recorded as a failed obligation; go on."""
    def run(I):
        try:
            entry(I)
        except Mismatch:
            pass
    return run


class Rule:
    """The loop contract of the run at hand."""

    def __init__(self, x):
        self.x = x

    def pick(self, I, s, fr, it):
        self.cur = None
        r = self.x.rule
        if r is None:
            return False
        for kind in (r if isinstance(r, list) else [r]):
            if isinstance(s, ast.While) == hasattr(kind, 'run_while') and \
                    (kind.pred is None or kind.pred(I, s, fr, it)):
                self.cur = kind
                return True
        return False

    def run_while(self, I, s, fr):
        self.cur.run_while(I, s, fr)

    def run_for(self, I, s, fr, it):
        self.cur.run_for(I, s, fr, it)


def explorer(extra=None):
    """An Explorer with the callee contracts; the state is x.world."""
    from zope.tal.talinterpreter import FasterStringIO, TALInterpreter

    def structure(name):
        def c(I, self, text, repldict):
            return x.world.c_call(I, name, [text, repldict])
        return c
    contracts = {
        TALInterpreter.interpret:
            lambda I, self, program: x.world.c_call(I, 'interpret',
                                                    [program]),
        TALInterpreter.insertHTMLStructure: structure('insertHTMLStructure'),
        TALInterpreter.insertXMLStructure: structure('insertXMLStructure'),
        TALInterpreter.stream_write:
            lambda I, self, s, **kw: x.world.c_stream_write(I, s),
        TALInterpreter._annotated_stream_write:
            lambda I, self, s: x.world.c_annotated(I, self, s),
        TALInterpreter.StringIO:
            lambda I, self: x.world.c_stringio(I, self),
        FasterStringIO: lambda I, args, kw: x.world.c_stringio(I, None),
    }
    contracts.update(extra or {})
    x = Explorer(contracts=contracts, models={
        sys.stderr.write: lambda I, args, kw: x.world.event('stderr', [])})
    x.c_interpret = contracts[TALInterpreter.interpret]
    x.rule = x.world = None
    x.timeout = 1000
    rule = Rule(x)
    x.loops = [(rule.pick, rule)]

    def dict_update(I, o, c, v):
        x.world.event('update', [o, v])
        return True
    x.dict_update = dict_update
    return x
