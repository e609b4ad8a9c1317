"""Contracts of constructors and of small methods.

The states the other contracts start from are those the constructors make.
"""
from pyvc.core import (Bool, ExcVal, HDict, HList, HObj, Method, Obj, Py, Ref, Str,
                       Sym, SymRaise, SymSeq, Tup, Union, Unsupported,
                       strval, z3)
from pyvc.explore import Explorer
from checks.helpsym import Map, instruction, items_of, raised
from checks.isym import Opaque, Rule, judged
from checks.nssym import Gen
from checks.optsym import Scene, as_bool
from checks.tmpl import NS


class Recorder(Opaque):
    """Notes what is called and set."""

    def __init__(self, name, answers=None):
        self.name, self.answers = name, answers or {}
        self.calls, self.sets = [], {}

    def getattr(self, I, o, name):
        return Method(name, o)

    def setattr(self, I, o, name, v):
        self.sets[name] = v

    def call(self, I, o, name, args, kw):
        self.calls.append((name, args, kw))
        return self.answers.get(name, Py(None))

    def truth(self, I, o):
        return True


def recorder(I, *args):
    m = Recorder(*args)
    return I.alloc(HObj(None, {}, model=m)), m


def empty(I, v, kind):
    c = I.cell(v) if isinstance(v, Ref) else None
    if kind is dict:
        return isinstance(c, HDict) and not c.entries and c.base is None
    return isinstance(c, HList) and not c.items and c.base is None


def context(I, w, v):
    """The outermost translation context"""
    from zope.tal.translationcontext import TranslationContext
    c = I.cell(v) if isinstance(v, Ref) else None
    w.ok('outermost translation context', isinstance(c, HObj)
         and c.cls is TranslationContext
         and I.same(c.fields.get('parent'), Py(None)))
    w.ok('default domain', I.same(c.fields.get('domain'), Py('default')))


# ------------------------------------------------------------- generator
def generator(I):
    from zope.tal.talgenerator import TALGenerator as G
    from zope.tal.taldefs import TAL_VERSION
    w = Scene(I, 'TALGenerator')
    error = I.fobj('error class')
    comp, m = recorder(I, 'compiler', {'getCompilerError': error})
    gen = I.new_obj(G, {})
    xml = I.fbool('xml')
    kw = {'xml': xml}
    file = None
    if I.decide(2):
        file = kw['source_file'] = I.fstr('file')
    try:
        I.call(I.getattr(gen, '__init__'), [comp], kw)
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    f = I.cell(gen).fields
    prog = items_of(I.cell(f['program']))
    w.ok('the program begins with its version', len(prog) >= 2
         and instruction(I, prog[0], Py('version'), Py(TAL_VERSION)))
    mode = prog[1].items
    w.ok('then its document type', len(mode) == 2 and I.same(
        mode[0], Py('mode')) and I.eq_term(mode[1], Sym('str', z3.If(
            xml.t, strval('xml'), strval('html')), str)))
    if file is not None:
        w.ok('then its source file', len(prog) == 3 and instruction(
            I, prog[2], Py('setSourceFile'), file))
        w.ok('the source file is known', I.same(f.get('source_file'), file))
    else:
        w.ok('no source file', len(prog) == 2 and 'source_file' not in f)
    w.ok('document type', I.same(f['xml'], xml))
    lists = [f[x] for x in ('stack', 'todoStack', 'slotStack')]
    dicts = [f[x] for x in ('macros', 'slots')]
    w.ok('nothing is open', all(empty(I, x, list) for x in lists)
         and len({x.addr for x in lists + [f['program']]}) == 4)
    w.ok('no macros and no slots', all(empty(I, x, dict) for x in dicts)
         and dicts[0] != dicts[1])
    w.ok('no translation unit', I.same(f['i18nLevel'], Py(0)))
    context(I, w, f['i18nContext'])
    w.ok('the expression compiler', f['expressionCompiler'] == comp
         and I.same(f['CompilerError'], error))
    I.x.cover(I, 'ends normally')


def code(I):
    from zope.tal.talgenerator import TALGenerator as G
    w = Scene(I, 'getCode')
    prog, macros, done = (I.fobj(x) for x in ('program', 'macros', 'done'))
    calls = []

    def optimize(I, program, **kw):
        calls.append(program)
        return done
    I.x.contracts[G.optimize] = optimize
    gen = I.new_obj(G, {'program': prog, 'macros': macros,
                        'stack': I.new_list(), 'todoStack': I.new_list()})
    try:
        r = I.call(I.getattr(gen, 'getCode'), [])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('the program is optimized once', len(calls) == 1
         and I.same(calls[0], prog))
    w.ok('program and macros', isinstance(r, Tup) and len(r.items) == 2
         and I.same(r.items[0], done) and I.same(r.items[1], macros))
    I.x.cover(I, 'ends normally')


def result(I):
    """What the parsers answer is what the generator made."""
    from zope.tal.htmltalparser import HTMLTALParser
    from zope.tal.talparser import TALParser
    cls = (HTMLTALParser, TALParser)[I.decide(2)]
    w = Scene(I, cls.__name__ + '.getCode')
    code = I.fobj('code')
    gen, m = recorder(I, 'generator', {'getCode': code})
    obj = I.new_obj(cls, {'gen': gen})
    try:
        r = I.call(I.getattr(obj, 'getCode'), [])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('the code the generator made', I.same(r, code)
         and [c[0] for c in m.calls] == ['getCode'])
    I.x.cover(I, 'ends normally')


# ------------------------------------------------ generator of insertions
def inserting(I):
    """AltTALGenerator: what is compiled of an inserted value."""
    from zope.tal.talgenerator import TALGenerator as G
    from zope.tal.talinterpreter import AltTALGenerator as A
    k = I.decide(5)
    w = Scene(I, 'AltTALGenerator.' + (
        '__init__', 'enable', 'emit', 'emitStartElement', 'replaceAttrs')[k])
    some = I.fresh('attributes to apply', Bool)
    m = Map('repldict', z3.Function('repldict', Str, Bool),
            lambda k: I.fobj('replacement'))
    m.some = some
    repl = I.alloc(HDict(base=m, frozen=True))
    if I.decide(2):
        I.assume(z3.Not(some))
        given = Py(None)
    else:
        given = repl
    on = I.fbool('enabled')
    calls = []

    def note(what, answer=Py(None)):
        def f(I, **kw):
            calls.append((what, kw))
            return answer
        return f
    ct = I.x.contracts
    gen = I.new_obj(A, {'repldict': given, 'enabled': on})
    f = I.cell(gen).fields
    answer = I.fobj('attributes replaced')
    try:
        if k == 0:
            f.clear()
            ct[G.__init__] = note('start')
            comp, xml = I.fobj('compiler'), I.fobj('xml')
            I.call(I.getattr(gen, '__init__'), [given, comp, xml])
            w.ok('attributes to apply', I.same(f['repldict'], given))
            w.ok('enabled at first', as_bool(I.truth(f['enabled'])))
            w.ok('a generator', len(calls) == 1 and I.same(
                calls[0][1]['expressionCompiler'], comp)
                and I.same(calls[0][1]['xml'], xml))
        elif k == 1:
            v = I.fbool('on')
            I.call(I.getattr(gen, 'enable'), [v])
            w.ok('enabled as told', I.same(f['enabled'], v))
            w.ok('attributes to apply', I.same(f['repldict'], given))
        elif k == 2:
            ct[G.emit] = note('emit')
            args = [Py('op'), I.fobj('a'), I.fobj('b')]
            I.call(I.getattr(gen, 'emit'), args)
            if I.branch(on.t):
                got = [v for c in calls for v in c[1].values()
                       if isinstance(v, Tup)]
                w.ok('instructions are emitted', len(calls) == len(got) == 1
                     and len(got[0].items) == 3 and all(
                         I.same(x, y) for x, y in zip(args, got[0].items)))
            else:
                w.ok('nothing is emitted while disabled', not calls)
        elif k == 3:
            ct[G.emitStartElement] = note('start')
            name, attrs = I.fstr('name'), I.fobj('attrlist')
            pos, isend = I.fobj('position'), I.fbool('isend')
            ds = []
            for x in ('tal', 'metal', 'i18n'):
                d = Map(x, z3.Function(x, Str, Bool),
                        lambda k: I.fobj('value'))
                d.some = I.fresh('some ' + x, Bool)
                ds.append(I.alloc(HDict(base=d, frozen=True)))
            I.call(I.getattr(gen, 'emitStartElement'),
                   [name, attrs] + ds + [pos, isend])
            w.ok('the element is started once', len(calls) == 1)
            kw = calls[0][1]
            w.ok('no METAL and I18N directives', empty(
                I, kw['metaldict'], dict) and empty(I, kw['i18ndict'], dict))
            c = I.cell(kw['taldict'])
            if I.branch(z3.And(on.t, some)):
                w.ok('attributes are applied', c.base is None and len(
                    c.entries) == 1 and c.entries[0][0] is None and I.same(
                        c.entries[0][1], Py('attributes')))
            else:
                w.ok('no TAL directives', empty(I, kw['taldict'], dict))
            w.ok('the element as it is', I.same(kw['name'], name)
                 and I.same(kw['attrlist'], attrs)
                 and I.same(kw['position'], pos)
                 and I.same(kw['isend'], isend))
        else:
            ct[G.replaceAttrs] = note('replace', answer)
            attrs, other = I.fobj('attrlist'), I.fobj('others')
            r = I.call(I.getattr(gen, 'replaceAttrs'), [attrs, other])
            w.ok('attributes are replaced once', len(calls) == 1 and I.same(
                r, answer) and I.same(calls[0][1]['attrlist'], attrs))
            if I.branch(z3.And(on.t, some)):
                w.ok('the attributes to apply', I.same(
                    calls[0][1]['repldict'], repl))
                w.ok('applied to the first element only', z3.Not(as_bool(
                    I.truth(f['repldict']))))
            else:
                w.ok('no attributes to apply', I.same(
                    calls[0][1]['repldict'], other))
                w.ok('attributes to apply are kept', I.same(
                    f['repldict'], given))
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    I.x.cover(I, w.name)
    I.x.cover(I, 'ends normally')


# ----------------------------------------------------------- interpreter
def interpreter(I):
    import sys
    from zope.tal.talinterpreter import TALInterpreter as T
    w = Scene(I, 'TALInterpreter')
    default = I.fobj('Default')
    engine, m = recorder(I, 'engine', {'getDefault': default})
    stream, sm = recorder(I, 'stream')
    prog, macros = I.fobj('program'), I.fobj('macros')
    opts = {x: I.fbool(x) for x in ('debug', 'metal', 'strictinsert',
                                    'i18nInterpolate', 'sourceAnnotations')}
    opts['wrap'], opts['stackLimit'] = I.fint('wrap'), I.fint('stackLimit')
    tal = I.fbool('tal')
    show = I.decide(3) - 1
    obj = I.new_obj(T, {})
    try:
        I.call(I.getattr(obj, '__init__'), [prog, macros, engine], dict(
            opts, tal=tal, showtal=Py(show), stream=stream))
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    f = I.cell(obj).fields
    for x in opts:
        w.ok('%s as given' % x, I.same(f[x], opts[x]))
    w.ok('TAL switch as given', I.same(f['tal'], tal))
    w.ok('program and macros as given', I.same(f['program'], prog)
         and I.same(f['macros'], macros) and f['engine'] == engine)
    w.ok('what stands for default', I.same(f['Default'], default))
    table = T.bytecode_handlers_tal if I.branch(tal.t) else \
        T.bytecode_handlers
    d = f['dispatch']
    w.ok('instructions are handled as TAL is on or off',
         isinstance(d, Py) and d.v is table)
    want = z3.Not(tal.t) if show == -1 else z3.BoolVal(bool(show))
    w.ok('directives are shown as told, or if TAL is off (option showtal)',
         as_bool(I.truth(f['showtal'])) == want)
    w.ok('output goes to the stream', f['stream'] == stream
         and empty(I, f['_stream_stack'], list))
    sw = f['_stream_write']
    w.ok('output is written to the stream', isinstance(sw, Method)
         and sw.name == 'write' and sw.self == stream)
    w.ok('no source annotation is pending (annotation)', I.same(
        f['_pending_source_annotation'], Py(False)))
    w.ok('no macro nesting', empty(I, f['macroStack'], list))
    w.ok('no use status', z3.Not(as_bool(I.truth(f['inUseDirective']))))
    w.ok('no scopes', I.same(f['scopeLevel'], Py(0)))
    w.ok('no level', I.same(f['level'], Py(0)))
    w.ok('no source file', I.same(f['sourceFile'], Py(None)))
    w.ok('no translation units', empty(I, f['i18nStack'], list)
         and f['i18nStack'] != f['macroStack'])
    w.ok('XML document type at first', z3.Not(as_bool(I.truth(f['html']))))
    w.ok('end of an empty tag of the document type', I.same(
        f['endsep'], Py('/>')) and I.same(f['endlen'], Py(2)))
    w.ok('column at first', I.same(f['col'], Py(0)))
    context(I, w, f['i18nContext'])
    I.x.cover(I, 'ends normally')


def buffer(I):
    """What has been written to a buffer is what is read from it."""
    from zope.tal.talinterpreter import TALInterpreter as T
    w = Scene(I, 'StringIO')
    try:
        b = I.call(I.getattr(I.new_obj(T, {}), 'StringIO'), [])
        c = I.cell(b)
        w.ok('a list of texts', isinstance(c, HList))
        w.ok('empty at first', not c.items and c.base is None and I.same(
            I.call(I.getattr(b, 'getvalue'), []), Py('')))
        old = I.fstr('written before')
        n = I.fint('writes before')
        I.assume(n.t >= 0)
        base = c.base = SymSeq('writes', n.t, lambda i: I.fstr('write'))

        def join(I, sep, c):
            if not (isinstance(sep, Py) and sep.v == ''):
                raise Unsupported('join')
            return I.concat([old] + [x for _, x in c.items])
        base.join = join
        x = I.fstr('text')
        I.call(I.getattr(b, 'write'), [x])
        w.ok('written at the end', c.base is base and len(c.items) == 1
             and c.items[0][0] is None and I.same(c.items[0][1], x))
        r = I.call(I.getattr(b, 'getvalue'), [])
        w.ok('everything written is read', I.eq_term(
            r, I.concat([old, x])))
        w.ok('reading changes nothing', c.base is base
             and len(c.items) == 1)
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    I.x.cover(I, 'ends normally')


# --------------------------------------------------------------- parsers
def html_parser(I):
    from html.parser import HTMLParser
    from zope.tal.htmltalparser import HTMLTALParser as P
    w = Scene(I, 'HTMLTALParser')
    calls = []
    I.x.contracts[HTMLParser.__init__] = lambda I, **kw: (
        calls.append(kw), Py(None))[1]
    gen = I.alloc(HObj(None, {}, model=Gen(w)))
    obj = I.new_obj(P, {})
    try:
        I.call(I.getattr(obj, '__init__'), [gen])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    f = I.cell(obj).fields
    w.ok('references are not decoded', len(calls) == 1 and I.same(
        calls[0].get('convert_charrefs'), Py(False)))
    w.ok('the generator is the one given', f['gen'] == gen)
    w.ok('no element is open', empty(I, f['tagstack'], list)
         and empty(I, f['nsstack'], list) and f['tagstack'] != f['nsstack'])
    c = I.cell(f['nsdict'])
    w.ok('bound from the start', isinstance(c, HDict) and c.base is None
         and all(e[0] is None for e in c.entries) and {
             e[1].v: e[2].v for e in c.entries} == NS)
    I.x.cover(I, 'ends normally')


TEXTS = {
    'handle_charref': ('&#', ';'),
    'handle_entityref': ('&', ';'),
    'handle_data': ('', ''),
    'handle_comment': ('<!--', '-->'),
    'handle_decl': ('<!', '>'),
    'handle_pi': ('<?', '>'),
    'unknown_decl': ('<![', None),
}


def html_text(I):
    from zope.tal.htmltalparser import HTMLTALParser as P
    names = sorted(TEXTS)
    name = names[I.decide(len(names))]
    w = Scene(I, name)
    a, b = TEXTS[name]
    obj = I.new_obj(P, {'gen': I.alloc(HObj(None, {}, model=Gen(w)))})
    data = I.fstr('data')
    try:
        I.call(I.getattr(obj, name), [data])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('one text', len(w.events) == 1 and w.events[0][0] == 'emitRawText'
         and len(w.events[0][1]) == 1 and not w.events[0][2])
    if b is None:
        # <![if ...]> and <![CDATA[...]]>
        t = z3.Concat(strval(a), data.t, z3.If(
            z3.Contains(data.t, strval('[')), strval(']]>'), strval(']>')))
    else:
        t = I.term(I.concat([Py(a), data, Py(b)]), 'str')
    w.ok('the text as written', I.term(w.events[0][1][0], 'str') == t)
    I.x.cover(I, name)
    I.x.cover(I, 'ends normally')


def xml_text(I):
    from zope.tal.talparser import TALParser as P
    w = Scene(I, 'DefaultHandler')
    obj = I.new_obj(P, {'gen': I.alloc(HObj(None, {}, model=Gen(w)))})
    data = I.fstr('data')
    try:
        I.call(I.getattr(obj, 'DefaultHandler'), [data])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('the text as written', len(w.events) == 1
         and w.events[0][0] == 'emitRawText' and len(w.events[0][1]) == 1
         and I.same(w.events[0][1][0], data))
    I.x.cover(I, 'ends normally')


def xml_parser(I):
    from xml.parsers import expat
    from zope.tal.talparser import TALParser as P
    w = Scene(I, 'TALParser')
    parser, m = recorder(I, 'expat parser')
    calls = []

    def create(I, args, kw):
        calls.append((args, kw))
        return parser
    I.x.models[expat.ParserCreate] = create
    gen = I.alloc(HObj(None, {}, model=Gen(w)))
    obj = I.new_obj(P, {})
    enc = I.fobj('encoding')
    try:
        I.call(I.getattr(obj, '__init__'), [gen, enc])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    f = I.cell(obj).fields
    w.ok('one parser', len(calls) == 1 and f['parser'] == parser)
    args = list(calls[0][0]) + list(calls[0][1].values())
    w.ok('encoding, and names with their namespace', len(args) == 2
         and I.same(args[0], enc) and I.same(args[1], Py(' ')))
    own = {k: v for k, v in m.sets.items() if k.endswith('Handler')}
    w.ok('elements, declarations and all the rest are handled',
         set(own) == {'StartElementHandler', 'EndElementHandler',
                      'StartNamespaceDeclHandler',
                      'EndNamespaceDeclHandler', 'DefaultHandler'})
    w.ok('by the methods of that name', all(
        getattr(v, 'self', None) == obj and getattr(
            v, 'fn', None) is getattr(P, k) for k, v in own.items()))
    rest = {k: v for k, v in m.sets.items() if k not in own}
    w.ok('attributes in order, prefixes as written', set(rest) == {
        'ordered_attributes', 'namespace_prefixes'} and all(
            I.truth(v) is True for v in rest.values()))
    w.ok('the generator is the one given', f['gen'] == gen)
    w.ok('nothing is declared', empty(I, f['nsNew'], list)
         and empty(I, f['nsStack'], list) and f['nsNew'] != f['nsStack'])
    I.x.cover(I, 'ends normally')


class Place(Recorder):
    """Where expat is; its names for that mean the same."""

    def getattr(self, I, o, name):
        for k in self.answers:
            if name in ('Error' + k, 'Current' + k):
                return self.answers[k]
        return Recorder.getattr(self, I, o, name)


def xml_place(I):
    from zope.tal.talparser import TALParser as P
    w = Scene(I, 'XMLParser.getpos')
    line, col = I.fobj('line'), I.fobj('column')
    parser = I.alloc(HObj(None, {}, model=Place('expat parser', {
        'LineNumber': line, 'ColumnNumber': col})))
    obj = I.new_obj(P, {'parser': parser})
    try:
        r = I.call(I.getattr(obj, 'getpos'), [])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('line and column of the parser', isinstance(r, Tup)
         and len(r.items) == 2 and I.same(r.items[0], line)
         and I.same(r.items[1], col))
    I.x.cover(I, 'ends normally')


class Encoding(Explorer):
    def str_method(self, I, o, name, args, kw):
        if name == 'encode':
            f = z3.Function('encode ' + '|'.join(
                str(a.v) for a in args), Str, Obj)
            return Sym('obj', f(I.term(o, 'str')), bytes, {'notnone': True})
        return Explorer.str_method(self, I, o, name, args, kw)


def xml_document(I):
    from zope.tal.talparser import TALParser as P
    w = Scene(I, 'XMLParser.parseString')
    parser, m = recorder(I, 'expat parser')
    obj = I.new_obj(P, {'parser': parser})
    text = I.decide(2)
    s = I.fstr('document') if text else Sym('obj', I.fresh(
        'document', Obj), bytes, {'notnone': True})
    try:
        I.call(I.getattr(obj, 'parseString'), [s])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('the document is parsed once and to its end', len(m.calls) == 1
         and m.calls[0][0] == 'Parse' and len(m.calls[0][1]) == 2
         and I.truth(m.calls[0][1][1]) is True)
    got = m.calls[0][1][0]
    if text:
        f = z3.Function('encode utf-8', Str, Obj)
        w.ok('as UTF-8', I.term(got, 'obj') == f(s.t))
    else:
        w.ok('as it is', I.same(got, s))
    I.x.cover(I, 'ends normally')


def closing(I):
    from zope.tal.talparser import TALParser as P
    w = Scene(I, 'EndNamespaceDeclHandler')
    top = I.fobj('bindings before')
    base = SymSeq('nsStack', I.fint('depth').t, lambda i: I.fobj('outer'))
    stack = I.alloc(HList(base=base))
    I.cell(stack).items.append((None, top))
    new = I.new_list()
    obj = I.new_obj(P, {'nsStack': stack, 'nsNew': new,
                        'nsDict': I.fobj('bindings')})
    try:
        I.call(I.getattr(obj, 'EndNamespaceDeclHandler'), [I.fobj('prefix')])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    f = I.cell(obj).fields
    w.ok('the bindings before hold again', I.same(f['nsDict'], top)
         and f['nsStack'] == stack and not I.cell(stack).items)
    w.ok('nothing is declared by that', f['nsNew'] == new
         and empty(I, new, list))
    I.x.cover(I, 'ends normally')


# ---------------------------------------------------------------- errors
def errors(I):
    """An error can be made from whatever it is made from."""
    from zope.tal import htmltalparser as h, taldefs as d
    k = I.decide(7)
    cls = (d.TALError, d.METALError, d.I18NError, h.HTMLParseError,
           h.NestingError, h.EmptyTagError, h.OpenTagError)[k]
    w = Scene(I, cls.__name__)
    pos = Tup((I.fobj('line'), I.fobj('offset')))
    msg, tag = I.fstr('message'), I.fstr('tag')
    I.assume(msg.t != strval(''))
    args = [msg]
    if k >= 5:
        args = [tag]
    if k in (4, 6):
        n = I.fint('open elements')
        f = z3.Function('open element', z3.IntSort(), Str)
        I.assume(n.t >= (1 if k == 6 else 0))
        base = SymSeq('tagstack', n.t, lambda i: Sym('str', f(i), str))
        base.join = lambda I, sep, c: I.fstr('joined')
        open_ = I.alloc(HList(base=base, frozen=True))
        args = [open_, tag]
    obj = I.new_obj(cls, {})
    try:
        I.call(I.getattr(obj, '__init__'), args + [pos])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    f = I.cell(obj).fields
    w.ok('position of the error', I.same(f.get('lineno'), pos.items[0])
         and I.same(f.get('offset'), pos.items[1]))
    if k < 4:
        w.ok('message of the error', I.same(f.get('msg'), msg))
    I.x.cover(I, 'ends normally')


def described(I):
    """ErrorInfo: the exception and where it happened."""
    from zope.tal.taldefs import ErrorInfo as E
    w = Scene(I, 'ErrorInfo')
    pos = Tup((I.fobj('line'), I.fobj('offset')))
    k = I.decide(3)
    if k == 0:
        err, cls = ExcVal(ValueError, []), ValueError
    else:
        err, cls = Py(KeyError), KeyError
    obj = I.new_obj(E, {})
    try:
        I.call(I.getattr(obj, '__init__'), [err] + ([pos] if k < 2 else []))
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    f = I.cell(obj).fields
    w.ok('class of the exception', I.same(f.get('type'), Py(cls)))
    w.ok('the exception itself', I.same(
        f.get('value'), Py(None) if k else err))
    want = pos.items if k < 2 else (Py(None), Py(None))
    w.ok('place of the error', I.same(f.get('lineno'), want[0])
         and I.same(f.get('offset'), want[1]))
    I.x.cover(I, 'ends normally')


# ------------------------------------------------------------ extraction
def extraction(I):
    """POEngine: every part of a template is gone through."""
    from zope.tal.talgettext import POEngine as E
    w = Scene(I, 'POEngine')
    obj = I.new_obj(E, {})
    expr = I.fobj('expression')
    try:
        b = I.call(I.getattr(obj, 'evaluateBoolean'), [expr])
        s = I.call(I.getattr(obj, 'evaluateSequence'), [expr])
        v = I.call(I.getattr(obj, 'evaluate'), [expr])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('what is under a condition is looked at', I.truth(b) is True)
    items = I.seq_items(s)
    w.ok('what is repeated is looked at once', items is not None
         and len(items) == 1)
    w.ok('dynamic content is text', isinstance(v, Py)
         and isinstance(v.v, str))
    I.x.cover(I, 'ends normally')


def catalog(I):
    """POEngine: nothing is in a new catalog."""
    from zope.tal.dummyengine import DummyEngine as D
    from zope.tal.talgettext import POEngine as E
    w = Scene(I, 'POEngine.__init__')
    macros, calls = I.fobj('macros'), []

    def init(I, *args, **kw):
        calls.append((args, kw))
        return Py(None)
    I.x.contracts[D.__init__] = init
    obj = I.new_obj(E, {})
    try:
        I.call(I.getattr(obj, '__init__'), [macros])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('an engine with these macros', len(calls) == 1 and I.same(
        (list(calls[0][0]) + list(calls[0][1].values()))[-1], macros))
    w.ok('an empty catalog', empty(I, I.cell(obj).fields['catalog'], dict))
    I.x.cover(I, 'ends normally')


def class_methods(mod, cls, *names):
    def get():
        import importlib
        m = importlib.import_module('zope.tal.' + mod)
        c = getattr(m, cls)
        return [getattr(c, n) for n in names]
    return get


PARTS = {
    'generator': (generator, class_methods(
        'talgenerator', 'TALGenerator', '__init__')),
    'code': (code, class_methods('talgenerator', 'TALGenerator', 'getCode')),
    'result': (result, lambda: class_methods(
        'htmltalparser', 'HTMLTALParser', 'getCode')() + class_methods(
            'talparser', 'TALParser', 'getCode')()),
    'inserting': (inserting, class_methods(
        'talinterpreter', 'AltTALGenerator', '__init__', 'enable', 'emit',
        'emitStartElement', 'replaceAttrs')),
    'interpreter': (interpreter, class_methods(
        'talinterpreter', 'TALInterpreter', '__init__')),
    'buffer': (buffer, lambda: class_methods(
        'talinterpreter', 'TALInterpreter', 'StringIO')() + class_methods(
            'talinterpreter', 'FasterStringIO', '__init__', 'getvalue')()),
    'HTML parser': (html_parser, class_methods(
        'htmltalparser', 'HTMLTALParser', '__init__')),
    'HTML text': (html_text, class_methods(
        'htmltalparser', 'HTMLTALParser', *TEXTS)),
    'XML parser': (xml_parser, class_methods(
        'talparser', 'TALParser', '__init__', 'createParser')),
    'XML document': (xml_document, class_methods(
        'talparser', 'TALParser', 'parseString')),
    'XML text': (xml_text, class_methods(
        'talparser', 'TALParser', 'DefaultHandler')),
    'XML end of bindings': (closing, class_methods(
        'talparser', 'TALParser', 'EndNamespaceDeclHandler')),
    'XML place': (xml_place, class_methods(
        'talparser', 'TALParser', 'getpos')),
    'errors': (errors, class_methods('taldefs', 'TALError', '__init__')),
    'error info': (described, class_methods(
        'taldefs', 'ErrorInfo', '__init__')),
    'extraction': (extraction, class_methods(
        'talgettext', 'POEngine', 'evaluate', 'evaluateBoolean',
        'evaluateSequence')),
    'catalog': (catalog, class_methods(
        'talgettext', 'POEngine', '__init__')),
}


def run(c, names, keep=None):
    for name in names:
        entry, fns = PARTS[name]
        try:
            x = Encoding()
            x.global_names = {'XMLParseError'}
            x.rule = None
            rule = Rule(x)
            x.loops = [(rule.pick, rule)]
            x.max_seconds = 60
            x.run(judged(entry), name)
        except Exception as e:
            c.undecide('%s: %s: %s' % (name, type(e).__name__, e))
            continue
        c.explorer(x, name, keep)
        for f in fns():
            c.under_contract(f)
        if not x.obligations:
            c.undecide('%s: no obligations' % name)
        elif not x.covers.get('ends normally'):
            c.undecide('%s: no normal end' % name)
    c.assume('the constructors of html.parser.HTMLParser and io.StringIO and '
             'the handler attributes of expat parsers behave as documented')
