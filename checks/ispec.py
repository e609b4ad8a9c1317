"""Contracts of the interpreter's instruction handlers.

Every function spec_* below takes an Interp, builds an arbitrary interpreter
state, runs the real handler found in the interpreter's own dispatch table and
compares what it did with the contract.  Callees that are themselves under
contract (interpret) are replaced by their contract; everything else is
executed in place.
"""

import re

from pyvc.core import (Bound, ExcVal, HList, HObj, Method, PathEnd, Py, Ref, Sym,
                       SymRaise, SymSeq, Tup, Unsupported, strof, strval, z3)
from checks.isym import (CloseScopes, Dispatch, ForRule, Mismatch, Opaque,
                         Reader, SlotDict,
                         Stopped, WhileRule, World, as_term, assigned,
                         explorer, judged, same, same_seq)


class Ctx:
    """One symbolic run of one handler."""

    def __init__(self, I, name, tal, **kw):
        self.I, self.name = I, name
        self.w = World(I, tal, **kw)
        I.x.world = self.w
        self.exc = None

    def run(self, op, stuff):
        from zope.tal.talinterpreter import TALInterpreter
        table = TALInterpreter.bytecode_handlers_tal if self.w.tal else \
            TALInterpreter.bytecode_handlers
        self.call(table[op], stuff)

    def call(self, fn, *args):
        I, w = self.I, self.w
        w.called = fn
        try:
            self.result = I.call(Py(fn), [w.self_] + list(args))
        except SymRaise as e:
            self.exc = e.exc
        I.x.cover(I, 'ends normally' if self.exc is None else
                  'ends with an exception')
        self.r = Reader(w, self.name, self.exc)
        return self.r

    # ------------------------------------------------------------ judging
    def judge(self, trace, delta=0, ctx=None, own=(), bare=False):
        """trace(r): the events as they must be; then the state."""
        r = self.r
        try:
            try:
                trace(r)
                if self.exc is not None:
                    if not own or self.exc.cls not in own:
                        r.bad('raises %s' % self.exc)
                r.end()
            except Stopped:
                # the specification stops where a callee raised
                if self.exc is None:
                    r.bad('an exception of a callee is swallowed')
                if self.exc is not r.last_raised.raised:
                    r.bad('another exception than the callee\'s')
                r.end()
            self.after(delta, ctx, bare)
        except Mismatch:
            pass

    def after(self, delta=0, ctx=None, bare=False):
        I, w, r = self.I, self.w, self.r
        # a write to an object of the program would have been refuted
        r.ok('unchanged input')
        f0 = w.fields0
        sl0 = I.term(f0['scopeLevel'], 'int')
        sl = I.term(w.f('scopeLevel'), 'int')
        when = 'after an exception' if self.exc is not None else 'at the end'
        ok = r.ok
        extra = set(I.cell(w.self_).fields) - set(f0)
        if extra:
            raise Unsupported('new interpreter fields %s' % sorted(extra))
        ok('same level ' + when,
           I.term(w.f('level'), 'int') == I.term(f0['level'], 'int'))
        for n, s in (('macroStack', w.macs0), ('i18nStack', w.units0),
                     ('_stream_stack', w.streams0)):
            ok('%s is as before %s' % (n, when), w.same_list(n, s))
        ok('use status is as before ' + when,
           self.eq(w.f('inUseDirective'), f0['inUseDirective']))
        if not bare:
            ok('document type is as before ' + when, z3.And(
                *[z3.BoolVal(t) if isinstance(t, bool) else t for t in (
                    self.eq(w.f('html'), f0['html']),
                    self.eq(w.f('endsep'), f0['endsep']))]))
        ok('engine has been told the current file ' + when,
           self.eq(w.told_file, w.f('sourceFile')))
        ok('engine has been told the current position ' + when,
           self.eq(w.told_pos, w.f('position')))
        if self.exc is None:
            ok('scopes: count', sl == sl0 + delta)
            ok('scopes: engine', w.depth == w.depth0 + delta)
            ok('same stream', w.f('stream') == f0['stream'])
            if ctx is None:
                ok('translation context is as before',
                   self.is_(w.f('i18nContext'), f0['i18nContext']))
            else:
                ctx()
            w.good_writer('at the end')
            w.in_step('at the end')
        else:
            ok('scopes left open are counted',
               w.depth - sl == w.depth0 - sl0)
            ok('no scope of the surroundings is closed', sl >= sl0)

    def eq(self, a, b):
        if self.I.same(a, b):
            return True
        return self.I.eq_term(a, b)

    def is_(self, a, b):
        if self.I.same(a, b):
            return True
        return self.I.is_term(a, b)

    # ------------------------------------------------ state at an event
    def at(self, e, what, stream=None, depth=0, level=0, ctx=True, macs=True,
           units=True, streams=True, inuse=True):
        """State in which an event happened."""
        I, w, r = self.I, self.w, self.r
        s = e.snap
        f0 = w.fields0
        sl0 = I.term(f0['scopeLevel'], 'int')
        r.ok(what + ': output target',
             s['stream'] == (stream if stream is not None else w.out))
        r.ok(what + ': variable scopes', s['depth'] == w.depth0 + depth)
        r.ok(what + ': scope count',
             I.term(s['scopeLevel'], 'int') == sl0 + level)
        if ctx:
            r.ok(what + ': translation context',
                 self.is_(s['i18nContext'], f0['i18nContext']))
        if macs:
            r.ok(what + ': macro nesting', self.list_as(s, 'macroStack',
                                                        w.macs0))
        if units:
            r.ok(what + ': translation units', self.list_as(s, 'i18nStack',
                                                            w.units0))
        if inuse:
            r.ok(what + ': use status', self.eq(s['inUseDirective'],
                                                f0['inUseDirective']))

    def list_as(self, s, name, start, more=0):
        b = s[name + '*']
        if b is None or s[name] != start[0]:
            return False
        base, items = b
        if more:
            if len(items) < more:
                return False
            items = items[:-more]
        return same_seq(self.I, base, items, start[1], [])

    def interp(self, r, block, what, **kw):
        """Next: this block is interpreted once, in this state."""
        e = r.peek()
        if e is not None and e.kind == 'interpret' and \
                e.args[0] == block:
            self.at(e, what, **kw)
        return r.next('interpret', block)


# ------------------------------------------------------------------ helpers
def newline(t):
    """Place of the last line break."""
    return z3.Function('rfind', z3.StringSort(), z3.StringSort(),
                       z3.IntSort())(t, z3.StringVal('\n'))


def nothing(r):
    pass


SPECS = {}


def spec(name, *tables):
    def deco(f):
        SPECS[name] = (f, tables)
        return f
    return deco


@spec('version', 0, 1)
def version(I, tal):
    c = Ctx(I, 'version', tal)
    from zope.tal.taldefs import TAL_VERSION
    c.run('version', Py(TAL_VERSION))
    c.judge(nothing)


@spec('mode', 0, 1)
def mode(I, tal):
    c = Ctx(I, 'mode', tal)
    m = ('html', 'xml')[I.decide(2)]
    c.run('mode', Py(m))
    w = c.w
    c.judge(nothing, bare=True)
    t = I.truth(w.f('html'))
    c.r.ok('document type', t if m == 'html' else (
        not t if isinstance(t, bool) else z3.Not(t)))
    c.r.ok('end of empty tags', c.eq(w.f('endsep'),
                                     Py(' />' if m == 'html' else '/>')))
    c.r.ok('its length', c.eq(w.f('endlen'), Py(3 if m == 'html' else 2)))


@spec('setPosition', 0, 1)
def setPosition(I, tal):
    c = Ctx(I, 'setPosition', tal)
    p = Tup((I.fint('line'), I.fint('col')))
    c.run('setPosition', p)

    def trace(r):
        r.ok('told', c.eq(c.w.told_pos, p))
    c.judge(trace)


@spec('setSourceFile', 0, 1)
def setSourceFile(I, tal):
    c = Ctx(I, 'setSourceFile', tal)
    p = I.fstr('file')
    c.run('setSourceFile', p)

    def trace(r):
        r.ok('told', c.eq(c.w.told_file, p))
        r.ok('remembered', c.eq(c.w.f('sourceFile'), p))
        r.ok('annotation pending exactly if asked for', I.term(
            c.w.f('_pending_source_annotation'), 'bool') == z3.Or(
            I.term(c.w.f('sourceAnnotations'), 'bool'),
            I.term(c.w.fields0['_pending_source_annotation'], 'bool')))
    c.judge(trace)


@spec('rawtextOffset', 0, 1)
def rawtextOffset(I, tal):
    c = Ctx(I, 'rawtextOffset', tal)
    s = I.fstr('s')
    off = I.fint('offset')
    # C08: the offset is the length of the text, which is on one line
    I.assume(z3.And(off.t == z3.Length(s.t), newline(s.t) == -1))
    c.run('rawtextOffset', Tup((s, off)))
    c.judge(lambda r: r.writes(c.w.out, s))


@spec('rawtextColumn', 0, 1)
def rawtextColumn(I, tal):
    c = Ctx(I, 'rawtextColumn', tal)
    s, col = I.fstr('s'), I.fint('col')
    # C08: the column is the one behind the last line break of the text
    I.assume(z3.And(newline(s.t) >= 0, col.t == z3.Length(s.t) -
                    newline(s.t) - 1))
    c.run('rawtextColumn', Tup((s, col)))
    c.judge(lambda r: r.writes(c.w.out, s))
    c.r.ok('column', c.eq(c.w.f('col'), col))


@spec('rawtextBeginScope', 0, 1)
def rawtextBeginScope(I, tal):
    c = Ctx(I, 'rawtextBeginScope', tal)
    w = c.w
    s, d = I.fstr('s'), w.block('dict')
    pos = Tup((I.fint('line'), I.fint('column')))
    close = I.decide(2)
    col = I.fint('col')
    I.assume(z3.And(newline(s.t) >= 0, col.t == z3.Length(s.t) -
                    newline(s.t) - 1))
    c.run('rawtextBeginScope', Tup((s, col, pos, Py(close), d)))

    def trace(r):
        r.writes(w.out, s)
        if tal:
            e = r.next('setLocal', Py('attrs'), d)
            r.ok('attrs is set in the new scope',
                 e.snap['depth'] == w.depth0 + 1 - close)
        r.ok('position', c.eq(w.told_pos, pos))
        sc = [e.kind for e in w.events if e.kind in ('beginScope',
                                                     'endScope')]
        r.ok('scope calls', sc == (['endScope', 'beginScope'] if close
                                   else ['beginScope']))
    c.judge(trace, delta=1 - close)


@spec('beginScope', 0, 1)
def beginScope(I, tal):
    c = Ctx(I, 'beginScope', tal)
    d = c.w.block('dict')
    c.run('beginScope', d)

    def trace(r):
        if tal:
            e = r.next('setLocal', Py('attrs'), d)
            r.ok('attrs is set in the new scope',
                 e.snap['depth'] == c.w.depth0 + 1)
    c.judge(trace, delta=1)


@spec('endScope', 0, 1)
def endScope(I, tal):
    c = Ctx(I, 'endScope', tal)
    c.run('endScope', Tup(()))
    c.judge(nothing, delta=-1)


def _set(kind):
    def f(I, tal):
        c = Ctx(I, kind, tal)
        name, e = I.fstr('name'), c.w.expr()
        c.run(kind, Tup((name, e)))

        def trace(r):
            if tal:
                v = r.next('evaluateValue', e).result
                ev = r.next(kind, name, v)
                r.ok('in the same scope', ev.snap['depth'] == c.w.depth0)
        c.judge(trace)
    return f


spec('setLocal', 0, 1)(_set('setLocal'))
spec('setGlobal', 0, 1)(_set('setGlobal'))


@spec('beginI18nContext', 0, 1)
def beginI18nContext(I, tal):
    c = Ctx(I, 'beginI18nContext', tal)
    w = c.w
    entries = []
    vals = {}
    for n in ('domain', 'source', 'target'):
        if I.decide(2):
            vals[n] = I.fstr(n)
            entries.append([None, Py(n), vals[n]])
    d = I.new_dict(entries, frozen=True)
    c.run('beginI18nContext', d)

    def ctx():
        r, old, new = c.r, w.fields0['i18nContext'], w.f('i18nContext')
        r.ok('inner context of the old one',
             c.is_(I.getattr(new, 'parent'), old))
        for n in ('domain', 'source', 'target'):
            got, out = I.getattr(new, n), I.getattr(old, n)
            if n in vals:
                e = strval('') == vals[n].t
                if I.branch(e):
                    r.same(n + ' is inherited', got, out)
                else:
                    r.same(n + ' is the one given', got, vals[n])
            else:
                r.same(n + ' is inherited', got, out)
    c.judge(nothing, ctx=ctx)


@spec('endI18nContext', 0, 1)
def endI18nContext(I, tal):
    c = Ctx(I, 'endI18nContext', tal)
    p = I.getattr(c.w.ctx, 'parent')
    I.assume(z3.Not(I.term(I.wrap_bool(I.is_term(p, Py(None))), 'bool')))
    c.run('endI18nContext', Tup(()))

    def ctx():
        c.r.ok('back to the outer context',
               c.is_(c.w.f('i18nContext'), p))
    c.judge(nothing, ctx=ctx)


# ------------------------------------------------------------- text, C01
def translated(c, r, msg, default=None, mapping=None):
    """The message is sent for translation (unless interpolation is off);
    returns the text to use."""
    I, w = c.I, c.w
    if not r.truth(w.fields0['i18nInterpolate']):
        return msg
    e = r.next('translate', msg)
    r.same('translation domain', e.args[1],
           I.getattr(e.snap['i18nContext'], 'domain'))
    return e.result


def _text(op, i18n):
    def f(I, tal):
        from zope.i18nmessageid import Message
        c = Ctx(I, op, tal)
        w = c.w
        e, block = w.expr(), w.block('block')
        c.run(op, Tup((e, block)))

        def trace(r):
            if not tal:
                c.interp(r, block, 'own content')
                return
            v = r.next('evaluateText', e).result
            if isinstance(v, Py) and v.v is None:
                return
            if v is w.default:
                c.interp(r, block, 'own content')
                return
            if v.cls is Message or i18n:
                v = translated(c, r, v)
            r.escapes('text written', r.writes(w.out), v, 'text')
        c.judge(trace)
    return f


spec('insertText', 0, 1)(_text('insertText', False))
spec('insertI18nText', 0, 1)(_text('insertI18nText', True))


# --------------------------------------------------------- structure, C12
def _struct(op, i18n):
    def f(I, tal):
        from zope.i18nmessageid import Message
        c = Ctx(I, op, tal)
        w = c.w
        e, block = w.expr(), w.block('block')
        repl = I.alloc(HObj(dict, {}, frozen=True, model=Repl(I)))
        c.run(op, Tup((e, repl, block)))

        def trace(r):
            if not tal:
                c.interp(r, block, 'own content')
                return
            v = r.next('evaluateStructure', e).result
            if isinstance(v, Py) and v.v is None:
                return
            if r.truth(I.wrap_bool(I.is_term(v, w.default))):
                c.interp(r, block, 'own content')
                return
            if isinstance(v, Sym) and v.kind == 'obj':
                v = I.to_str(v)
                cls = str
            else:
                cls = v.cls
            if cls is Message or i18n:
                v = translated(c, r, v)
            if r.truth(repl) or r.truth(w.fields0['strictinsert']):
                which = 'insertHTMLStructure' if r.truth(
                    w.fields0['html']) else 'insertXMLStructure'
                ev = r.next(which, v, repl)
                c.at(ev, 'insertion')
            else:
                r.writes(w.out, v)
        c.judge(trace)
    return f


class Repl:
    """The attributes to apply: a dictionary, empty or not, never changed."""

    def __init__(self, I):
        self.t = I.fresh('hasrepl', z3.BoolSort())

    def getattr(self, I, o, name):
        return None

    def truth(self, I, o):
        return self.t


spec('insertStructure', 0, 1)(_struct('insertStructure', False))
spec('insertI18nStructure', 0, 1)(_struct('insertI18nStructure', True))


# --------------------------------------------------------------- flow, C07
@spec('condition', 0, 1)
def condition(I, tal):
    c = Ctx(I, 'condition', tal)
    e, block = c.w.expr(), c.w.block('block')
    c.run('condition', Tup((e, block)))

    def trace(r):
        if tal:
            v = r.next('evaluateBoolean', e).result
            if not r.truth(v):
                return
        c.interp(r, block, 'block')
    c.judge(trace)


def _drop_tag(c, r, start, program):
    """no tag: the start instructions run into a buffer of their own that
    nobody reads, the content runs in place."""
    w = c.w
    e = r.peek()
    s = e.snap['stream'] if e is not None and e.kind == 'interpret' else None
    if s is not None:
        r.ok('the tag goes to a buffer', s != w.out)
    c.interp(r, start, 'start tag', stream=s)
    c.interp(r, program, 'content')


@spec('optTag', 0, 1)
def optTag(I, tal):
    c = Ctx(I, 'optTag', tal)
    w = c.w
    name, start, prog = I.fstr('name'), w.block('start'), w.block('program')
    k = I.decide(3)
    e = (Py(None), Py(''), w.expr())[k]
    if k == 2:
        I.assume(e.t != I.const_obj(''))
        I.assume(e.t != I.const_obj(None))
    ns, isend = I.fbool('tag_ns'), I.fbool('isend')
    # a name has no line break
    I.assume(newline(z3.Concat(strval('</'), name.t, strval('>'))) == -1)
    c.run('optTag', Tup((name, e, ns, isend, start, prog)))

    def trace(r):
        omit = False
        if tal:
            if k == 1:
                omit = True
            elif k == 2:
                omit = r.truth(r.next('evaluateBoolean', e).result)
        if not omit and r.truth(ns) and not r.truth(w.fields0['showtal']):
            omit = True
        if omit:
            _drop_tag(c, r, start, prog)
            return
        c.interp(r, start, 'start tag')
        c.interp(r, prog, 'content')
        if not r.truth(isend):
            r.writes(w.out, I.concat([Py('</'), name, Py('>')]))
    c.judge(trace)


@spec('loop', 0, 1)
def loop(I, tal):
    c = Ctx(I, 'loop', tal)
    w = c.w
    name, e, block = I.fstr('name'), w.expr(), w.block('block')

    def each(I, w, ev, ahead):
        r = Reader(w, c.name)
        r.ev = [x for x in ev if x.kind not in Reader.SILENT]
        try:
            it = w.events[0].result
            n = r.next('next', it)
            r.ok('there is a next item', I.truth(n.result))
            c.r = r
            c.interp(r, block, 'repetition')
            if ahead:
                r.next('next', it)
            r.end()
            w.in_step('after a repetition')
        except (Mismatch, Stopped):
            pass
    I.x.rule = Repetition(w, loop_state(c), each)
    c.run('loop', Tup((name, e, block)))

    def trace(r):
        if not tal:
            c.interp(r, block, 'block')
            return
        it = r.next('setRepeat', name, e).result
        if r.peek() is not None and r.peek().kind == 'next':
            r.next('next', it)
        r.next('repetitions')
        n = r.next('next', it)
        # an exception in a repetition
        if r.truth(n.result):
            r.next('interpret', block)
            if I.x.rule.ahead:
                r.next('next', it)
            r.bad('repetition goes on')
    c.judge(trace)


class Repetition(WhileRule):
    """while there is a next item: ...; each iteration may ask for its own
    item or, with the answer in a local variable, for the next one's."""

    def __init__(self, w, inv, each):
        WhileRule.__init__(self, w, None, inv)
        self.judge, self.ahead = each, None

    def asked(self):
        ev = [e for e in self.w.events if e.kind not in Reader.SILENT]
        return ev[-1] if ev and ev[-1].kind == 'next' else None

    def start(self, I, s, fr):
        w = self.w
        e = self.asked()
        self.ahead = {}
        if e is not None:
            r = I.truth(e.result)
            for n in assigned(s):
                v = fr.env.get(n)
                p = v is not None and I._prim(v)
                if not p or p[0] == 'obj':
                    continue
                v = as_term(I.truth(v))
                for f in (lambda a: a, z3.Not):
                    if I.implied(v == f(as_term(r))):
                        self.ahead[n] = f
                        break
            if not self.ahead:
                raise Unsupported('answer of the iterator is not kept')

        def forget(I, fr, w):
            w.havoc_flow()
            w.events.append(Mark('repetitions'))
            self.n0 = len(w.events)
            if e is not None:
                w.events.append(Mark('next', e.args, I.fbool('more')))
                for n, f in self.ahead.items():
                    I.assume(as_term(I.truth(fr.env[n])) == f(as_term(
                        I.truth(w.events[-1].result))))
        self.forget = forget
        WhileRule.start(self, I, s, fr)

    def again(self, I, fr, n0):
        if self.ahead:
            e = self.asked()
            if e is not None:
                I.prove('loop invariant is kept: answer of the iterator',
                        z3.And([as_term(I.truth(fr.env[n])) == f(as_term(
                            I.truth(e.result)))
                            for n, f in self.ahead.items()]))
        self.each = lambda I, w, ev: self.judge(
            I, w, w.events[self.n0:], self.ahead)
        WhileRule.again(self, I, fr, n0)


class Mark:
    raised = None

    def __init__(self, kind, args=(), result=None):
        self.kind, self.args, self.result = kind, args, result
        self.snap = {}


def loop_state(c):
    """Loop invariant: the interpreter is in the state it started in."""
    def inv(I, fr, w):
        f0 = w.fields0
        yield 'stream', w.f('stream') == f0['stream']
        yield 'scopes', w.depth == w.depth0
        yield 'scope count', I.term(w.f('scopeLevel'), 'int') == I.term(
            f0['scopeLevel'], 'int')
        yield 'context', c.is_(w.f('i18nContext'), f0['i18nContext'])
        yield 'macro nesting', w.same_list('macroStack', w.macs0)
        yield 'units', w.same_list('i18nStack', w.units0)
        yield 'level', I.term(w.f('level'), 'int') == I.term(
            f0['level'], 'int')
    return inv


# ------------------------------------------------------------- errors, C04
@spec('onError', 0, 1)
def onError(I, tal):
    c = Ctx(I, 'onError', tal)
    w = c.w
    f0 = w.fields0
    block, handler = w.block('block'), w.block('handler')
    I.x.rule = CloseScopes(w, I.term(f0['scopeLevel'], 'int'))
    c.run('onError', Tup((block, handler)))

    def trace(r):
        if not tal:
            c.interp(r, block, 'protected part')
            return
        s = buffered(c, r)
        c.at(r.peek(), 'protected part', stream=s)
        e = r.take('interpret', block)
        if e.raised is None:
            t = r.writes(w.out)
            r.ok('what the protected part wrote is written',
                 contents(c, t, s, e))
            return
        x = r.next('createErrorInfo')
        r.ok('error info is about the exception',
             x.args[0] is e.raised)
        r.same('error info has the position', x.args[1], f0['position'])
        l = r.next('setLocal', Py('error'), x.result)
        r.ok('error is local to the handler', l.snap['depth'] == w.depth0 + 1)
        h = r.peek()
        if h is not None:
            c.at(h, 'handler', depth=1)
            r.ok('handler: source file', c.eq(h.snap['told_file'],
                                              f0['sourceFile']))
            r.ok('handler: position', c.eq(h.snap['told_pos'],
                                           f0['position']))
        r.next('interpret', handler)
    c.judge(trace)


def buffered(c, r):
    """The stream of the next event, which must not be the output."""
    e = r.peek()
    if e is None:
        r.bad('nothing is interpreted')
    s = e.snap['stream']
    r.ok('output goes to a buffer', s != c.w.out and isinstance(s, Ref))
    return s


def contents(c, t, stream, e):
    """Is t what was written to the stream up to the end of event e?"""
    v = c.w.contents.get(str(t.t)) if isinstance(t, Sym) else None
    if v is None or v[0] != stream:
        return False
    later = c.w.events[c.w.events.index(e) + 1:]
    return v[1] > c.w.events.index(e) and not any(
        x.kind == 'write' and x.args[0] == stream for x in later)


# ------------------------------------------------------- translation, C16
def normal(I, t):
    """The text with white space normalised."""
    return I.x.join(I, Py(' '), I.x.str_method(I, t, 'split', [], {}))


@spec('insertTranslation', 0, 1)
def insertTranslation(I, tal):
    c = Ctx(I, 'insertTranslation', tal)
    w = c.w
    f0 = w.fields0
    block, e = w.block('block'), w.expr()
    explicit = I.decide(2)
    msgid = I.fstr('msgid') if explicit else Py('')
    if explicit:
        I.assume(msgid.t != strval(''))
    data = I.decide(2)
    I.x.rule = CloseScopes(w, I.term(f0['scopeLevel'], 'int'))
    c.run('insertTranslation', Tup((msgid, block) + ((e,) if data else ())))

    def trace(r):
        s = buffered(c, r)
        ev = r.peek()
        c.at(ev, 'content', stream=s, units=False)
        top = ev.snap['i18nStack*'][1][-1:] if ev.snap['i18nStack*'] else []
        r.ok('a new unit is open', bool(top) and isinstance(top[0][1], Tup)
             and c.list_as(ev.snap, 'i18nStack', w.units0, more=1))
        unit = top[0][1].items[0]
        r.next('interpret', block)
        obj = None
        if data:
            obj = r.next('evaluate', e).result
            if not r.truth(f0['i18nInterpolate']):
                # of no use then, and done or not
                if r.peek() and r.peek().kind == 'update':
                    r.next('update', unit, obj)
            elif r.truth(obj):
                r.next('update', unit, obj)
        if not r.truth(f0['i18nInterpolate']):
            t = r.writes(w.out)
            if explicit:
                r.same('the message id is written', t, msgid)
            return
        x = r.next('translate')
        got, default = x.args[0], x.args[3]
        r.ok('default is the rendered content', contents(c, default, s, ev))
        if explicit:
            r.same('explicit message id', got, msgid)
        elif r.truth(f0['html']) and I.branch(
                I.term(f0['_currentTag'], 'str') == strval('pre')):
            r.same('message id is the content verbatim', got, default)
        else:
            r.same('message id is the normalised content', got,
                   normal(I, default))
        r.same('domain', x.args[1], I.getattr(f0['i18nContext'], 'domain'))
        r.ok('names of this unit', x.args[2] == unit)
        r.writes(w.out, x.result)
    c.judge(trace)


@spec('i18nVariable', 0, 1)
def i18nVariable(I, tal):
    c = Ctx(I, 'i18nVariable', tal)
    w = c.w
    f0 = w.fields0
    name, prog = I.fstr('varname'), w.block('program')
    I.x.rule = CloseScopes(w, I.term(f0['scopeLevel'], 'int'))
    c.run('i18nVariable', Tup((name, prog, Py(None), I.fbool('structure'))))

    def trace(r):
        s = buffered(c, r)
        ev = r.peek()
        c.at(ev, 'content', stream=s)
        r.next('interpret', prog)
        n = w.units0[1].length

        def value(v):
            t = [k for k, (st, i) in w.contents.items() if st == s]
            r.ok('the content is read once', len(t) == 1)
            st = Sym('str', z3.String(t[0]), str)
            r.ok('value is the content', contents(c, st, s, ev))
            r.ok('value is the content, normalised or not',
                 z3.Or(I.term(v, 'str') == st.t,
                       I.term(v, 'str') == I.term(normal(I, st), 'str')))
        if not I.branch(n > 0):
            value(r.writes(w.out))
            return
        d = r.next('dictset', w.units0[1].at(z3.simplify(n - 1)).items[0],
                   name)
        value(d.args[2])
        r.writes(w.out, I.concat([Py('${'), name, Py('}')]))
    c.judge(trace)


@spec('evaluateCode', 1)
def evaluateCode(I, tal):
    c = Ctx(I, 'evaluateCode', tal)
    w = c.w
    lang, prog = I.fstr('lang'), w.block('program')
    c.run('evaluateCode', Tup((lang, prog)))

    def trace(r):
        s = buffered(c, r)
        ev = r.peek()
        c.at(ev, 'content', stream=s)
        r.next('interpret', prog)
        x = r.next('evaluateCode', lang)
        r.ok('code is the content', contents(c, x.args[1], s, ev))
        r.writes(w.out, x.result)
    c.judge(trace)


# ----------------------------------------------------------- macros, C09 C10
@spec('defineMacro', 0, 1)
def defineMacro(I, tal):
    c = Ctx(I, 'defineMacro', tal)
    block = c.w.block('macro')
    c.run('defineMacro', Tup((I.fstr('name'), block)))

    def trace(r):
        e = r.peek()
        if e is not None:
            c.at(e, 'macro', inuse=False)
            r.ok('not in a use', not_(I, e.snap['inUseDirective']))
        r.next('interpret', block)
    c.judge(trace)


def not_(I, v):
    t = I.truth(v)
    return not t if isinstance(t, bool) else z3.Not(t)


def _use(op):
    def f(I, tal):
        from zope.tal.taldefs import METALError
        c = Ctx(I, op, tal)
        w = c.w
        f0 = w.fields0
        name, e, block = I.fstr('name'), w.expr(), w.block('block')
        slots = I.alloc(HObj(dict, {}, frozen=True,
                             model=SlotDict(w, 'slots')))
        stuff = (name, e, slots, block)
        defname = Py(None)
        if op == 'extendMacro':
            defname = I.fstr('defname')
            stuff += (defname,)
        c.run(op, Tup(stuff))

        def trace(r):
            if not r.truth(f0['metal']):
                r.name += ' (METAL off)'
                c.interp(r, block, 'own content')
                return
            v = r.next('evaluateMacro', e).result
            prog = block
            if v is not w.default:
                prog = v
                if not I.branch(I.cell(v).model.proper(w.html)):
                    r.ok('a macro of another version or type is refused',
                         c.exc is not None and c.exc.cls is METALError)
                    return
            n = w.macs0[1].length
            if I.branch(n >= I.term(f0['stackLimit'], 'int')):
                r.ok('too deep nesting is refused',
                     c.exc is not None and c.exc.cls is METALError)
                return
            r.ok('no METAL error', c.exc is None or c.exc.cls is None)
            outer = r.next('getValue', Py('macroname')).result
            l = r.next('setLocal', Py('macroname'))
            x = r.peek()
            if x is not None:
                c.at(x, 'macro', macs=False, inuse=False)
                r.ok('in a use', I.truth(x.snap['inUseDirective']))
                r.ok('macro nesting is one deeper', c.list_as(
                    x.snap, 'macroStack', w.macs0, more=1))
                it = I.cell(x.snap['macroStack*'][1][-1][1]).items
                it = [y for _, y in it]
                r.same('entry: name', it[0], name)
                r.ok('entry: slots', it[1] == slots)
                r.same('entry: defining name', it[2], defname)
                ext = I.truth(it[3])
                if op == 'useMacro':
                    r.ok('entry: not extending', not_(I, it[3]))
                else:
                    r.ok('entry: extending', (
                        z3.BoolVal(ext) if isinstance(ext, bool) else ext)
                        == I.term(f0['inUseDirective'], 'bool'))
                r.ok('entry: context', it[5] == f0['i18nContext'])
            r.next('interpret', prog)
            b = r.next('setLocal', Py('macroname'), outer)
            r.ok('macroname is restored in the same scope',
                 b.snap['depth'] == l.snap['depth'])
            r.ok('source file is the one before', z3.And(
                as_term(c.eq(w.f('sourceFile'), f0['sourceFile'])),
                as_term(c.eq(w.told_file, f0['sourceFile']))))
        c.judge(trace, own=(METALError,))
    return f


spec('useMacro', 0, 1)(_use('useMacro'))
spec('extendMacro', 0, 1)(_use('extendMacro'))


@spec('fillSlot', 0, 1)
def fillSlot(I, tal):
    c = Ctx(I, 'fillSlot', tal)
    block = c.w.block('block')
    c.run('fillSlot', Tup((I.fstr('name'), block)))
    c.judge(lambda r: c.interp(r, block, 'block'))


@spec('defineSlot', 0, 1)
def defineSlot(I, tal):
    c = Ctx(I, 'defineSlot', tal)
    w = c.w
    f0 = w.fields0
    name, block = I.fstr('slotName'), w.block('block')
    n, m = w.macs0[1].length, w.entry
    nm = name.t
    j = z3.Int('j')

    def local(I, fr, v):
        if v not in fr.env:
            raise Unsupported('no local variable %s' % v)
        return fr.env[v]

    def depth_inv(I, fr, w):
        d = I.term(local(I, fr, 'depth'), 'int')
        yield 'depth is in range', z3.And(d >= 1, z3.Or(d <= n, d == 1))
        yield 'entries passed are extensions', z3.ForAll(
            [j], z3.Implies(z3.And(j > n - d, j < n), m.ext(j)))

    def find_inv(I, fr, w):
        d = I.term(local(I, fr, 'depth'), 'int')
        i = I.term(local(I, fr, 'i'), 'int')
        yield 'place is in range', z3.And(i <= n - 1, i >= n - d - 1)
        yield 'entries passed have no filler', z3.ForAll(
            [j], z3.Implies(z3.And(j > i, j < n), z3.Not(m.has(j, nm))))
        yield 'nothing found so far', I.is_term(local(I, fr, 'slot'),
                                                Py(None))

    def which(v):
        return lambda I, s, fr, it: v in assigned(s)
    no = (lambda I, fr, w: None)
    I.x.rule = [
        WhileRule(w, no, depth_inv, pred=which('depth')),
        WhileRule(w, no, find_inv, pred=which('slot')),
        ForRule(w, no, lambda I, it: I.cell(it).base.length,
                lambda I, it, k: I.cell(it).base.at(k)),
    ]
    c.run('defineSlot', Tup((name, block)))

    def trace(r):
        if not r.truth(f0['metal']):
            r.name += ' (METAL off)'
            c.interp(r, block, 'own content')
            return
        e = r.peek()
        if e is None:
            r.bad('nothing is rendered')
        p = e.args[0]
        if p == block:
            i = I.fresh('i', z3.IntSort())
            r.ok('own content only if no macro of the chain fills the slot',
                 z3.Implies(z3.And(i >= 0, i < n, z3.ForAll(
                     [j], z3.Implies(z3.And(j > i, j < n), m.ext(j)))),
                     z3.Not(m.has(i, nm))))
            c.interp(r, block, 'own content')
            return
        b = e.snap['macroStack*']
        r.ok('macro stack', b is not None and b[0] is not None)
        i = b[0].length + len(b[1])
        r.ok('the filler belongs to an entry of the stack',
             z3.And(i >= 0, i < n, m.has(i, nm)))
        r.ok('the filler is that entry\'s', c.is_(p, Sym(
            'obj', m.fill(i, nm), None, {'notnone': True})))
        r.ok('no later entry fills the slot', z3.ForAll(
            [j], z3.Implies(z3.And(j > i, j < n), z3.Not(m.has(j, nm)))))
        r.ok('entries in between are extensions', z3.ForAll(
            [j], z3.Implies(z3.And(j > i, j < n), m.ext(j))))
        k = I.fresh('k', z3.IntSort())
        r.ok('macro nesting as at the place of the filler', z3.Implies(
            z3.And(k >= 0, k < i), as_term(same(
                I, b[0].at(k), w.macs0[1].at(k)))))
        c.at(e, 'filler', macs=False)
        r.next('interpret')
    c.judge(trace)


# ------------------------------------------------ parsed structure, C12
class Tool(Opaque):
    """A compiler or parser: every call is an event and may fail."""

    def __init__(self, w, name, args):
        self.w, self.name, self.args = w, name, args

    def getattr(self, I, o, name):
        if name == 'program':
            return I.alloc(HObj(list, {}, model=Pops(self.w)))
        return Method(name, o)

    def call(self, I, o, name, args, kw):
        w = self.w

        def result():
            if name != 'getCode':
                return Py(None)
            return Tup((w.block('parsed'), I.fobj('macros')))
        return w.event(name, [o] + list(args), raising=name != 'enable',
                       result=result)


class Pops(Opaque):
    def __init__(self, w):
        self.w, self.name = w, 'program'

    def getattr(self, I, o, name):
        return Method(name, o) if name == 'pop' else None

    def call(self, I, o, name, args, kw):
        self.w.event('pop', [o])
        return Py(None)


def _structure(html):
    def f(I, tal):
        """The value is parsed completely, by the parser of this document
        type with the neutralised compiler, before anything is written; then
        it is rendered once."""
        from zope.tal import htmltalparser, talinterpreter, talparser
        T = talinterpreter.TALInterpreter
        fn = T.insertHTMLStructure if html else T.insertXMLStructure
        c = Ctx(I, fn.__name__, tal)
        w = c.w
        text = I.fstr('text')
        repl = I.fobj('repldict')
        x = I.x
        x.contracts.pop(fn, None)
        made = {}

        def maker(name):
            def contract(I, args, kw):
                if kw:
                    raise Unsupported('keywords of %s' % name)
                o = I.alloc(HObj(None, {}, model=Tool(w, name, list(args))))
                made.setdefault(name, []).append((o, list(args)))
                return o
            return contract
        for k in (talinterpreter.AltTALGenerator,
                  htmltalparser.HTMLTALParser, talparser.TALParser):
            x.contracts[k] = maker(k.__name__)
        c.call(fn, text, repl)

        def trace(r):
            g = made.get('AltTALGenerator', ())
            r.ok('one neutralised compiler', len(g) == 1)
            gen, ga = g[0]
            r.ok('compiler gets the attributes and the document type',
                 len(ga) == 3)
            r.same('attributes to apply', ga[0], repl)
            r.ok('document type', isinstance(ga[2], Py)
                 and bool(ga[2].v) is not html)
            p = made.get('HTMLTALParser' if html else 'TALParser', ())
            r.ok('one parser of the document type', len(p) == 1
                 and len(made) == 2)
            r.ok('parser feeds the neutralised compiler',
                 p[0][1][:1] == [gen])
            texts = []
            done = last = None
            if any(e.raised is None and e.kind == 'interpret'
                   for e in r.ev):
                I.x.cover(I, 'well-formed value')
            while True:
                e = r.peek()
                if e is None or e.kind == 'write':
                    break
                if e.kind == 'interpret':
                    break
                r.i += 1
                if e.kind in ('parseString', 'parseFragment', 'feed'):
                    texts.append(e.args[1])
                elif e.kind == 'getCode':
                    done = e.result
                elif e.kind not in ('enable', 'pop', 'close'):
                    r.bad('unexpected %s' % e.kind)
                if e.raised is not None:
                    r.last_raised = e
                    raise Stopped()
            r.ok('nothing is written before the value is parsed',
                 done is not None)
            t = I.term(I.concat(texts), 'str')
            r.ok('the whole value is parsed', z3.Contains(t, text.t))
            last = r.next('interpret', done.items[0])
            c.at(last, 'value')
        c.judge(trace)
    return f


spec('insertHTMLStructure', 1)(_structure(True))
spec('insertXMLStructure', 1)(_structure(False))


# ------------------------------------------------- start tags, C02 C14 C20
DIRECTIVE = ('metal', 'tal', 'xmlns', 'i18n')
DYNAMIC = ('replace', 'insert', 'optional')


def tag_item(I, w, kind):
    """An arbitrary entry of a start tag's attribute list."""
    if kind == 0:
        return Tup((I.fstr('attr'), I.fstr('rendered')))
    if kind == 1:
        a = I.fstr('action')
        I.assume(z3.Or(*[a.t == strval(x) for x in DIRECTIVE]))
        return Tup((I.fstr('attr'), opt_str(I, 'value'), a))
    a = I.fstr('action')
    I.assume(z3.Or(*[a.t == strval(x) for x in DYNAMIC]))
    return Tup((I.fstr('attr'), opt_str(I, 'value'), a,
                maybe(I, 'expr', w.expr()), I.fbool('xlat'),
                opt_str(I, 'msgid')))


def opt_str(I, name):
    return maybe(I, name, I.fstr(name))


def maybe(I, name, v):
    b = I.fresh('has_' + name, z3.BoolSort())
    return I.union([(b, v), (z3.Not(b), Py(None))])


def _tag(op):
    def f(I, tal):
        from zope.tal.talinterpreter import TALInterpreter as T
        c = Ctx(I, op, tal)
        w = c.w
        f0 = w.fields0
        name = I.fstr('name')
        n = w.nat('nattrs')
        kind = I.decide(3)
        item = w.lazy(lambda i: tag_item(I, w, kind))
        attrs = I.alloc(HList(base=SymSeq('attrs', n, item), frozen=True))
        found = {}

        def action(which):
            def contract(I, self, item):
                def result():
                    return I.new_list([I.fstr('shown')
                                       for _ in range(I.decide(3))])
                return w.event(which, [item], raising=True, result=result)
            return contract
        dyn = T.bytecode_handlers_tal['<attrAction>'] if tal else \
            T.bytecode_handlers['<attrAction>']
        I.x.contracts[T.attrAction] = action('attrAction')
        I.x.contracts[T.attrAction_tal] = action('attrAction_tal')

        def lists(I, fr):
            return [v for v in fr.env.values() if isinstance(v, Ref)
                    and isinstance(I.cell(v), HList)
                    and I.cell(v).base is None and not I.cell(v).frozen]

        def forget(I, fr, w):
            ls = lists(I, fr)
            if len(ls) != 1:
                raise Unsupported('tag is not built in one list')
            l = I.cell(ls[0])
            if 'head' not in found:
                found['head'] = I.concat([x for _, x in l.items])
            so = I.fstr('sofar')
            found['list'], found['sofar'] = ls[0], so
            l.items = [(None, so)]
            w.events.append(Mark('attributes'))

        def texts(r, it):
            """What is to be shown for one entry."""
            if kind == 0:
                return [it.items[1]]
            if kind == 1:
                if not r.truth(f0['showtal']):
                    return []
                e = r.next('attrAction', it)
            else:
                e = r.next(dyn.__name__, it)
            return [x for _, x in I.cell(e.result).items]

        def each(I, w, ev):
            r = Reader(w, c.name)
            r.ev = [e for e in ev if e.kind not in Reader.SILENT]
            try:
                want = texts(r, rule.cur)
                r.end()
                l = [x for _, x in I.cell(found['list']).items]
                r.ok('text so far is kept', l[:1] == [found['sofar']])
                got = I.concat(l[1:])
                spaced(c, r, got, want)
            except Mismatch:
                pass
        rule = ForRule(w, forget, lambda I, it: I.cell(it).base.length
                       if I.cell(it).base is not None else None,
                       lambda I, it, k: I.cell(it).base.at(k), each=each,
                       writes=lambda I, w: [('list', found['list'].addr)],
                       pred=lambda I, s, fr, it: it == attrs)
        I.x.rule = rule
        c.run(op, Tup((name, attrs)))

        def trace(r):
            r.take('attributes')
            r.same('the tag starts with its name', found['head'],
                   I.concat([Py('<'), name]))
            if c.exc is not None:
                # the tag is incomplete; only the surroundings matter
                ev = [e for e in w.events if e.raised is not None]
                r.ok('an exception of an attribute', len(ev) == 1)
                r.ev = [e for e in r.ev if e.kind == 'write']
                r.i = 0
                r.writes(w.out)
                r.last_raised = ev[0]
                raise Stopped()
            end = Py('>') if op == 'startTag' else f0['endsep']
            r.writes(w.out, I.concat([found['sofar'], end]))
        c.judge(trace)
    return f


def blanks(t):
    """The runs of blanks occurring in a string term."""
    out = []
    for x in flat(t):
        if x.decl().name() == 'repeat':
            out.append(x)
        elif z3.is_string_value(x):
            for b in re.findall(r'\n( *)', strof(x)):
                out.append(strval(b))
    return out


def flat(t):
    """The parts of a concatenation, from left to right."""
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        return [y for x in t.children() for y in flat(x)]
    return [t]


def spaced(c, r, got, want):
    """got is the wanted texts, each after one blank or after a line break
    and blanks; the latter only if wrapping is on."""
    I = c.I
    t = I.term(got, 'str')
    wrap = I.term(c.w.fields0['wrap'], 'int')
    runs = blanks(t)
    alts = [(z3.BoolVal(True), [])]
    for x in want:
        new = []
        for cond, parts in alts:
            new.append((cond, parts + [Py(' '), x]))
            for b in runs:
                new.append((z3.And(cond, wrap != 0), parts + [
                    Py('\n'), Sym('str', b, str), x]))
        alts = new
    r.ok('each attribute follows a blank or a line break', z3.Or(*[
        t == I.term(I.concat(parts), 'str') for cond, parts in alts]))
    r.ok('wrapping: line breaks only if wanted', z3.Or(*[
        z3.And(cond, t == I.term(I.concat(parts), 'str'))
        for cond, parts in alts]))
    for b in runs:
        if b.num_args():
            r.ok('wrapping: indentation is made of blanks', b.arg(0) == strval(' '))


spec('startTag', 0, 1)(_tag('startTag'))
spec('startEndTag', 0, 1)(_tag('startEndTag'))


@spec('<attrAction>', 1)
def attrActionTal(I, tal):
    """A dynamic attribute (C02)."""
    from zope.i18nmessageid import Message
    from zope.tal.talinterpreter import TALInterpreter
    from checks.refsem import BOOL_ATTRS
    c = Ctx(I, 'attrAction_tal', tal)
    w = c.w
    f0 = w.fields0
    it = tag_item(I, w, 2)
    name, static, action, expr, xlat, msgid = it.items
    c.call(TALInterpreter.bytecode_handlers_tal['<attrAction>'], it)

    def pick(v):
        return I.each(v, lambda a: a)

    def none(v):
        return isinstance(v, Py) and v.v is None

    def trace(r):
        def done(value):
            if value is None:
                r.ok('attribute is left out', left_out(I, c.result))
                return
            l = I.seq_items(c.result)
            r.ok('one attribute', l is not None and len(l) == 1)
            t = I.term(l[0], 'str')
            head = I.term(I.concat([name, Py('=')]), 'str')
            r.ok('attribute has the name', z3.PrefixOf(head, t))
            q = tail_of(flat(t), name.t)
            if q is None:
                raise Unsupported('form of the attribute')
            r.escapes('value', Sym('str', q, str), value, 'attr')
        ex, val = pick(expr), pick(static)
        ins = I.branch(action.t == strval('insert'))
        mid = pick(msgid)
        has_mid = not none(mid) and I.branch(mid.t != strval(''))
        if none(ex):
            if ins and not has_mid:
                done(None)
                return
        else:
            low = I.x.str_method(I, name, 'lower', [], {})
            boolean = r.truth(f0['html']) and I.branch(z3.Or(*[
                low.t == strval(b) for b in sorted(BOOL_ATTRS)]))
            v = r.next('evaluateBoolean' if boolean else 'evaluateText',
                       ex).result
            if v is w.default:
                if ins:
                    done(None)
                    return
            elif boolean:
                if not r.truth(v):
                    done(None)
                    return
                val = Py(None)
            else:
                if none(v):
                    done(None)
                    return
                val = v
        if r.truth(xlat) and (has_mid or not none(val)):
            m = mid if has_mid else val
            if r.truth(f0['i18nInterpolate']):
                e = r.next('translate', m)
                r.same('domain', e.args[1], I.getattr(
                    f0['i18nContext'], 'domain'))
                val = e.result
            else:
                val = m
        elif not none(val) and val.cls is Message:
            val = translated(c, r, val)
        done(name if none(val) else val)
    c.judge(trace)


@spec('attrAction', 0, 1)
def attrAction(I, tal):
    """A directive attribute, or with TAL off any attribute (C19)."""
    from zope.tal.talinterpreter import TALInterpreter
    c = Ctx(I, 'attrAction', tal)
    w = c.w
    f0 = w.fields0
    it = tag_item(I, w, 1 + I.decide(2))
    name, static, action = it.items[:3]
    I.x.rule = ForRule(
        w, lambda I, fr, w: None,
        lambda I, it: I.cell(it).base.length,
        lambda I, it, k: I.cell(it).base.at(k), writes=lambda I, w: [],
        pred=lambda I, s, fr, it: isinstance(it, Ref)
        and isinstance(I.cell(it), HList) and not I.cell(it).items)
    c.call(TALInterpreter.attrAction, it)

    def trace(r):
        if I.branch(action.t == strval('metal')) and r.truth(f0['metal']):
            if I.branch(w.macs0[1].length > 0):
                I.x.cover(I, 'METAL attribute within a macro')
                return
        if I.branch(action.t == strval('insert')):
            r.ok('not in the template, not shown', left_out(I, c.result))
            return
        val = I.each(static, lambda a: a)
        l = I.seq_items(c.result)
        r.ok('one attribute', l is not None and len(l) == 1)
        if isinstance(val, Py) and val.v is None:
            r.same('just the name', l[0], name)
            return
        t = I.term(l[0], 'str')
        r.ok('attribute has the name', z3.PrefixOf(
            I.term(I.concat([name, Py('=')]), 'str'), t))
        q = tail_of(flat(t), name.t)
        if q is None:
            raise Unsupported('form of the attribute')
        r.escapes('value', Sym('str', q, str), val, 'attr')
    c.judge(trace)


def left_out(I, v):
    l = I.seq_items(v)
    return l is not None and not l


def tail_of(ch, name):
    """The term for what follows name= in a concatenation."""
    if len(ch) < 2 or not ch[0].eq(name) or not z3.is_string_value(ch[1]):
        return None
    s = strof(ch[1])
    if not s.startswith('='):
        return None
    rest = ([strval(s[1:])] if s[1:] else []) + list(ch[2:])
    if not rest:
        return None
    return z3.Concat(*rest) if len(rest) > 1 else rest[0]


# ------------------------------------------------------- the interpreter loop
@spec('interpret', 0, 1)
def interpret(I, tal):
    """Every instruction of a block is given to its handler once, in order;
    the level is one higher meanwhile."""
    from zope.tal.talinterpreter import TALInterpreter
    c = Ctx(I, 'interpret', tal, debug=Py(I.decide(2)))
    w = c.w
    w.set('dispatch', I.alloc(HObj(dict, {}, frozen=True,
                                   model=Dispatch(w))))
    n = w.nat('length')
    item = w.lazy(lambda i: Tup((I.fstr('opcode'), w.other('args'))))
    prog = I.alloc(HList(base=SymSeq('program', n, item), frozen=True))
    lv = I.term(w.fields0['level'], 'int')

    def forget(I, fr, w):
        w.havoc_flow()
        w.havoc_scopes()
        w.events.append(Mark('instructions'))

    def one(r):
        op, args = rule.cur.items
        e = r.take('handler', op, w.self_, args)
        r.ok('level is one higher',
             I.term(e.snap['level'], 'int') == lv + 1)
        return e

    def each(I, w, ev):
        r = Reader(w, c.name)
        r.ev = [x for x in ev if x.kind != 'stderr']
        try:
            one(r)
            r.end()
            w.in_step('after an instruction')
        except Mismatch:
            pass

    def inv(I, fr, w):
        yield 'level', I.term(w.f('level'), 'int') == lv + 1
        yield 'stream', w.f('stream') == w.fields0['stream']
        yield 'dispatch', True
    rule = ForRule(w, forget, lambda I, it: n, lambda I, it, k: item(k),
                   inv=inv, each=each)
    I.x.rule = rule
    del I.x.contracts[TALInterpreter.interpret]
    try:
        c.call(TALInterpreter.interpret, prog)
    finally:
        I.x.contracts[TALInterpreter.interpret] = I.x.c_interpret
    r = c.r
    r.ev = [x for x in r.ev if x.kind != 'stderr']
    try:
        r.next('instructions')
        if c.exc is not None:
            e = one(r)
            r.ok('the handler\'s exception goes on', e.raised is c.exc)
        r.end()
        r.ok('level is restored', I.term(w.f('level'), 'int') == lv)
        for nm, st in (('macroStack', w.macs0), ('i18nStack', w.units0),
                       ('_stream_stack', w.streams0)):
            r.ok(nm + ' is not touched', w.same_list(nm, st))
        r.ok('use status', c.eq(w.f('inUseDirective'),
                                w.fields0['inUseDirective']))
        r.ok('document type', c.eq(w.f('html'), w.fields0['html']))
        if c.exc is None:
            w.in_step('at the end')
    except Mismatch:
        pass


@spec('__call__', 1)
def call(I, tal):
    from zope.tal.talinterpreter import TALInterpreter
    c = Ctx(I, '__call__', tal, level=Py(0), scopeLevel=Py(0))
    p = I.getattr(c.w.ctx, 'parent')
    I.assume(as_term(I.is_term(p, Py(None))))
    c.call(TALInterpreter.__call__)
    c.judge(lambda r: c.interp(r, c.w.fields0['program'], 'program'))


# ------------------------------------------------------------ annotations, C18
@spec('_annotated_stream_write', 1)
def annotated(I, tal):
    from zope.tal.talinterpreter import TALInterpreter
    T = TALInterpreter
    c = Ctx(I, '_annotated_stream_write', tal,
            _pending_source_annotation=Py(True))
    w = c.w
    w.set('_stream_write', Bound(T._annotated_stream_write, w.self_))
    s, note = I.fstr('s'), I.fstr('note')
    w.exact = False
    notes = []

    def fmt(I, self):
        notes.append(1)
        return note
    old = dict(I.x.contracts)
    I.x.contracts[T.formatSourceAnnotation] = fmt
    del I.x.contracts[T._annotated_stream_write]
    try:
        c.call(T._annotated_stream_write, s)
    finally:
        I.x.contracts = old
        I.contracts = old
    r = c.r
    try:
        if c.exc is not None:
            r.bad('raises')
        out, pre = [], None
        for e in w.events:
            r.ok('only the current stream is written to',
                 e.kind == 'write' and e.args[0] == w.out)
            if e.args[1] is note:
                r.ok('one annotation', pre is None)
                pre = list(out)
            else:
                out.append(e.args[1])
        r.same('the text itself is written', I.concat(out) if out
               else Py(''), s)
        buf = w.streams0[1].length > 0
        decl = z3.Contains(s.t, strval('<?xml'))
        blank = z3.Or(s.t == strval(''), z3.Function(
            'isspace', z3.StringSort(), z3.BoolSort())(s.t))
        pending = I.truth(w.f('_pending_source_annotation'))
        if pre is None:
            r.ok('still pending', pending)
            r.ok('not left out in front of other output',
                 z3.Or(buf, decl, blank))
            r.ok('writer stays', isinstance(w.f('_stream_write'), Bound))
        else:
            r.ok('no longer pending', not_(I, w.f(
                '_pending_source_annotation')))
            r.ok('text being captured is not annotated', z3.Not(buf))
            w.good_writer('afterwards')
            if pre:
                p = I.term(I.concat(pre), 'str')
                # up to the end of the first declaration
                i = z3.IndexOf(s.t, strval('<?xml'), 0)
                j = z3.IndexOf(s.t, strval('?>'), i)
                r.ok('there is a declaration', z3.And(i >= 0, j >= i))
                r.ok('after the declaration',
                     p == z3.SubString(s.t, 0, j + 2))
            else:
                r.ok('not before a declaration', z3.Not(decl))
                r.ok('not before white space', z3.Not(blank))
    except Mismatch:
        pass


@spec('stream_write', 1)
def streamWrite(I, tal):
    from zope.tal.talinterpreter import TALInterpreter
    c = Ctx(I, 'stream_write', tal)
    s = I.fstr('s')
    old = I.x.contracts.pop(TALInterpreter.stream_write)
    try:
        c.call(TALInterpreter.stream_write, s)
    finally:
        I.x.contracts[TALInterpreter.stream_write] = old
    c.judge(lambda r: r.writes(c.w.out, s))


@spec('formatSourceAnnotation', 1)
def formatAnnotation(I, tal):
    from zope.tal.talinterpreter import TALInterpreter
    f = I.fstr('file')
    line = Py(None) if I.decide(2) else I.fint('line')
    c = Ctx(I, 'formatSourceAnnotation', tal, sourceFile=f,
            position=Tup((line, I.fobj('offset'))))
    c.call(TALInterpreter.formatSourceAnnotation)
    r = c.r
    try:
        t = I.term(c.result, 'str')
        r.ok('a comment', z3.And(z3.PrefixOf(strval('<!--'), t),
                                 z3.SuffixOf(strval('-->'), t)))
        r.ok('names the file', z3.Contains(t, f.t))
        r.ok('writes nothing', not c.w.events)
    except Mismatch:
        pass


# ------------------------------------------------------------- running them
ASSUME = [
    "the engine's bookkeeping calls (beginScope, endScope, setLocal, "
    "setGlobal, setPosition, setSourceFile) and getValue, createErrorInfo do "
    "not raise; every other engine call may raise anything",
    "engine.translate and engine.evaluateCode answer with a string; "
    "evaluateText answers with None, default or a string (or Message)",
    "interpret() is used through its contract by the handlers, and handlers "
    "through theirs by interpret(): induction on the depth of the program",
    "blocks a handler interprets are balanced in scopes and translation "
    "contexts (C05: by the contract of an element and of the optimizer, "
    "induction over the nesting of elements)",
    "no other code changes the interpreter's fields during a rendering",
]


#: obligations about the state a handler leaves, or calls others in
FRAME = re.compile(
    'is as before|same level|scopes|no scope of the surroundings|'
    'same stream|column of the output|engine has been told|output goes to the current|'
    'unchanged input|: (macro nesting|output target|scope count|'
    'translation context|translation units|use status|variable scopes)$')


def auxiliary(name):
    """Invariants of searches, phrased with local variables."""
    return re.match('loop invariant .*(in range|entries passed|nothing '
                    'found)', name) is not None


def run(c, names, keep=None, tables=None, budget=300):
    """Discharge the contracts of these instructions."""
    import time
    from zope.tal.talinterpreter import TALInterpreter
    c.assume(*ASSUME)
    end = time.time() + budget
    for n in names:
        f, both = SPECS[n]
        for tal in both:
            if tables is not None and tal not in tables:
                continue
            lab = '%s%s' % (n, '' if tal else ' (TAL off)')
            try:
                x = explorer()
                x.max_seconds = max(2, min(90, end - time.time()))
                x.run(judged(lambda I: f(I, tal)), lab)
            except Exception as e:
                # the code no longer has the form the contract is about
                c.undecide('%s: %s: %s' % (lab, type(e).__name__, e))
                continue
            c.explorer(x, lab, keep, auxiliary)
            if not x.obligations:
                c.undecide('%s: no obligations' % lab)
            elif not x.covers.get('ends normally') and n != 'version':
                c.undecide('%s: no normal end' % lab)
            t = TALInterpreter.bytecode_handlers_tal if tal else \
                TALInterpreter.bytecode_handlers
            fn = t.get(n) or getattr(TALInterpreter, n, None)
            if fn is not None:
                c.under_contract(fn)
