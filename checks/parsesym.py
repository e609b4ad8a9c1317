"""Contracts of the HTML parser: which elements are open (C13), and of both
parsers: what belongs to which namespace (C14).

The stack of open elements is an arbitrary sequence of tags.  What has to be
closed is stated with the help of places in that sequence: the innermost block,
the innermost element of a name, and a function defined by recursion over the
sequence; facts about these are used at the places a loop looks at.
"""
import ast

from pyvc.core import (Bool, ExcVal, HDict, HList, HObj, Int, Obj, PathEnd,
                       Py, Ref, Str, Sym, SymRaise, SymSeq, Tup, Union,
                       Unsupported, strval, z3)
from pyvc.explore import Explorer
from checks.c13 import BLOCKS, HEADINGS, SIBLINGS, VOID
from checks.helpsym import Map, instruction, items_of, raised
from checks.isym import (ForRule, Mismatch, Opaque, Rule, WhileRule,
                         assigned, judged)
from checks.optsym import Scene, as_bool, sequence


def among(t, tags):
    return z3.Or(*[t == strval(x) for x in sorted(tags)])


def others():
    """Tags the code knows of and the property does not mention."""
    from zope.tal import htmltalparser as h
    known = VOID | HEADINGS | BLOCKS | {'p'}
    code = set(h.EMPTY_HTML_TAGS) | set(h.SECTION_LEVEL_HTML_TAGS) | set(
        h.BLOCK_CLOSING_TAG_MAP)
    return code - known


def bare(f):
    """A contract that does not look at the parser object."""
    def c(I, **kw):
        kw.pop('self', None)
        return f(I, **kw)
    return c


class Tags(SymSeq):
    """The open elements."""

    def contains(self, I, x):
        return self.w.top(I, x) >= 0


class Parser(Scene):
    """An HTML parser with arbitrary open elements."""

    def __init__(self, I, name, spare=0):
        Scene.__init__(self, I, name)
        from zope.tal.htmltalparser import HTMLTALParser
        self.n = I.fint('open elements').t
        I.assume(self.n >= spare)
        self.tag = z3.Function('tag', Int, Str)
        self.extra = others()
        self.facts = []
        self.known = {}
        self.tags = I.alloc(HList(base=self.stack(self.n)))
        self.at = I.cell(self.tags).base.at
        self.gen = I.alloc(HObj(None, {}, model=Generator(self)))
        self.pos = Tup((I.fint('line'), I.fint('offset')))
        self.ns = z3.IntVal(0)
        self.obj = I.new_obj(HTMLTALParser, {
            'tagstack': self.tags, 'gen': self.gen})
        self.error = None
        ct = I.x.contracts
        ct[HTMLTALParser.getpos] = lambda I, **kw: self.pos
        ct[HTMLTALParser.pop_xmlns] = bare(self.pop_ns)
        ct[HTMLTALParser.scan_xmlns] = bare(self.push_ns)

    def stack(self, n):
        s = Tags('tags', n, self.look)
        s.w = self
        return s

    def look(self, i):
        """The tag of an open element, with what is known of the place."""
        i = z3.simplify(i)
        t = self.tag(i)
        for f in self.facts:
            self.I.assume(f(i))
        self.proper(t)
        return Sym('str', t, str)

    def proper(self, t):
        if self.extra:
            self.I.assume(z3.Not(among(t, self.extra)))

    def top(self, I, x):
        """Place of the innermost element with this tag, or -1."""
        t = I.term(x, 'str')
        k = str(t)
        if k not in self.known:
            i = self.known[k] = I.fresh('innermost', Int)
            n = self.n
            I.assume(z3.And(i >= -1, i < n))
            I.assume(z3.Implies(i >= 0, self.tag(i) == t))
            self.facts.append(lambda j: z3.Implies(
                z3.And(j > i, j < n), self.tag(j) != t))
        return self.known[k]

    def open_now(self):
        """Number of elements now open, if they are the first ones."""
        I = self.I
        ref = I.cell(self.obj).fields['tagstack']
        self.ok('the list of open elements is kept', ref == self.tags)
        c = I.cell(ref)
        self.ok('the outer elements stay open', c.base is not None
                and c.base.at == self.look)
        return c.base.length, items_of(c)

    def pop_ns(self, I, **kw):
        self.ns = z3.simplify(self.ns - 1)
        return Py(None)

    def push_ns(self, I, attrs, **kw):
        self.ns = z3.simplify(self.ns + 1)
        self.events.append(('scan', attrs))
        return Py(None)

    def c_implied(self, I, tag, implied, **kw):
        """Contract of implied_endtag."""
        n, items = self.open_now()
        top = items[-1] if items else self.look(n - 1)
        self.ok('only the innermost element is closed',
                z3.And(n + len(items) > 0, as_bool(I.eq_term(tag, top))))
        self.events.append(('implied', tag, implied))
        if I.decide(2):
            self.error = ExcVal(None, t=I.fresh('refusal', Obj))
            raise SymRaise(self.error)
        I.list_method(self.tags, 'pop', [], {})
        self.pop_ns(I)
        return Py(None)

    def closing(self, kinds):
        """The implied ends among the events."""
        I = self.I
        for e in self.events:
            if e[0] == 'implied':
                self.ok('an end implied by %s' % kinds[1], I.eq_term(
                    e[2], Py(kinds[0])))


class Generator(Opaque):
    name = 'gen'

    def __init__(self, w):
        self.w = w

    def getattr(self, I, o, name):
        from pyvc.core import Method
        return Method(name, o)

    def call(self, I, o, name, args, kw):
        w = self.w
        if name not in ('emitStartElement', 'emitEndElement', 'emitRawText',
                        'unEmitWhitespace'):
            raise Unsupported('generator.%s' % name)
        names = {'emitStartElement': (
            'name', 'attrlist', 'taldict', 'metaldict', 'i18ndict',
            'position', 'isend'),
            'emitEndElement': ('name', 'isend', 'implied', 'position')}.get(
                name, ('text',))
        a = dict(zip(names, args))
        a.update(kw)
        w.events.append((name, a, w.I.cell(w.obj).fields.get('tagstack'),
                         items_of(I.cell(w.tags)),
                         I.cell(w.tags).base.length, w.ns))
        if name == 'unEmitWhitespace':
            w.white = I.fstr('white')
            return w.white
        if name != 'emitRawText' and I.decide(2):
            w.error = ExcVal(None, t=I.fresh('error', Obj))
            raise SymRaise(w.error)
        return Py(None)


def zero(I, v, default=0):
    """Is this argument false?"""
    t = as_bool(I.truth(v)) if v is not None else z3.BoolVal(bool(default))
    return z3.Not(t)


def passed(w, e):
    """An exception of the generator goes on unchanged."""
    w.ok('errors pass unchanged', w.error is not None and e.exc is w.error)


# -------------------------------------------------------- implied_endtag
def implied(I):
    w = Parser(I, 'implied_endtag', 1)
    tag = w.look(w.n - 1)
    kind = Py((-1, 1, 2)[I.decide(3)])
    try:
        I.call(I.getattr(w.obj, 'implied_endtag'), [tag, kind])
    except SymRaise as e:
        return passed(w, e)
    try:
        ends = [e for e in w.events if e[0] == 'emitEndElement']
        w.ok('the element is ended once', len(ends) == 1)
        a = ends[0][1]
        w.ok('the element ended is the one named', I.same(a['name'], tag))
        w.ok('the end is marked as implied', I.same(a.get('implied', Py(0)),
                                                    kind))
        w.ok('no end tag for a void element only', as_bool(I.truth(
            a.get('isend', Py(0)))) == (kind.v < 0))
        n, items = w.open_now()
        w.ok('the innermost element is closed, and no other', z3.And(
            n == w.n - 1, not items))
        w.ok('its namespace bindings end', w.ns == -1)
        # white space taken back comes after the end
        took = [e for e in w.events if e[0] == 'unEmitWhitespace']
        put = [e for e in w.events if e[0] == 'emitRawText']
        if took:
            w.ok('white space is taken back once', len(took) == 1)
            w.ok('white space is put back unless empty',
                 (z3.BoolVal(len(put) == 1 and I.same(
                     put[0][1]['text'], w.white))
                  if put else w.white.t == strval('')))
            w.ok('white space follows the end', not put or w.events.index(
                put[0]) > w.events.index(ends[0]) > w.events.index(took[0]))
            I.x.cover(I, 'white space')
        else:
            w.ok('nothing is put out', not put)
        I.x.cover(I, 'ends normally')
    except Mismatch:
        pass


# --------------------------------------------------- close_enclosed_tags
class Popping(WhileRule):
    """A loop that closes the innermost element; inv(n) -> pairs"""

    def __init__(self, w, about):
        WhileRule.__init__(self, w, self.forgetting, self.invariant,
                           writes=lambda I, w: [('list', w.tags.addr)])
        self.about = about

    def forgetting(self, I, fr, w):
        n = I.fint('still open').t
        c = I.cell(w.tags)
        c.base, c.items = w.stack(n), []
        w.ns = I.fresh('ns', Int)

    def invariant(self, I, fr, w):
        n, items = w.open_now()
        if items:
            raise Unsupported('elements were added')
        yield 'some elements are left', z3.And(n >= 0, n <= w.n)
        yield 'namespace bindings go with the elements', w.ns == n - w.n
        yield from self.about(n)

    def again(self, I, fr, n0):
        w = self.w
        ev = [e for e in w.events[n0:] if e[0] == 'implied']
        try:
            w.ok('one element is closed', len(ev) == 1
                 and len(w.events) == n0 + 1)
        except Mismatch:
            pass
        WhileRule.again(self, I, fr, n0)


def enclosed(I):
    from zope.tal.htmltalparser import HTMLTALParser, NestingError
    w = Parser(I, 'close_enclosed_tags')
    tag = I.fstr('tag')
    top = w.top(I, tag)
    I.x.contracts[HTMLTALParser.implied_endtag] = bare(w.c_implied)
    I.x.contracts[NestingError.__init__] = lambda I, **kw: Py(None)
    I.x.rule = Popping(w, lambda n: [
        ('the element is still open', n > top)])
    try:
        I.call(I.getattr(w.obj, 'close_enclosed_tags'), [tag])
        n, items = w.open_now()
        w.ok('the element is the innermost now', z3.And(
            top >= 0, n == top + 1, not items))
        w.ok('namespace bindings go with the elements', w.ns == n - w.n)
        w.closing((1, 'an end tag'))
        I.x.cover(I, 'ends normally')
    except SymRaise as e:
        if w.error is not None:
            w.closing((1, 'an end tag'))
            return passed(w, e)
        w.ok('rejected only if there is no such element', top < 0)
        w.ok('rejected as a nesting error', e.exc.cls is NestingError)
        w.ok('nothing is closed', not w.events)
        I.x.cover(I, 'rejected')
    except Mismatch:
        pass


# --------------------------------------------------------- handle_endtag
def end_tag(I):
    from zope.tal import htmltalparser as h
    w = Parser(I, 'handle_endtag')
    P = h.HTMLTALParser
    tag = I.fstr('tag')
    w.proper(tag.t)
    top = w.top(I, tag)
    w.called = 0

    def c_enclosed(I, tag, **kw):
        w.ok('elements are closed for this tag', I.same(tag, tag0)
             and not w.called)
        w.called = 1
        if not I.branch(top >= 0):
            w.error = ExcVal(h.NestingError)
            raise SymRaise(w.error)
        c = I.cell(w.tags)
        c.base = w.stack(top + 1)
        w.ns = top + 1 - w.n
        return Py(None)
    tag0 = tag
    ct = I.x.contracts
    ct[P.close_enclosed_tags] = bare(c_enclosed)
    ct[h.EmptyTagError.__init__] = lambda I, **kw: Py(None)
    inscript = z3.And(w.n > 0, w.tag(w.n - 1) == strval('script'),
                      tag.t != strval('script'))
    void = among(tag.t, VOID)
    try:
        I.call(I.getattr(w.obj, 'handle_endtag'), [tag])
        n, items = w.open_now()
        ev = [e for e in w.events if e[0] != 'scan']
        if not w.called:
            w.ok('an end tag is text in a script only', inscript)
            w.ok('the text is the tag', len(ev) == 1
                 and ev[0][0] == 'emitRawText' and I.eq_term(
                     ev[0][1]['text'], I.concat([Py('</'), tag, Py('>')])))
            w.ok('nothing is closed', z3.And(n == w.n, w.ns == 0, not items))
            I.x.cover(I, 'script')
            return
        w.ok('an end tag in a script is text', z3.Not(inscript))
        w.ok('the end tag of a void element is rejected', z3.Not(void))
        w.ok('the element is ended once', len(ev) == 1
             and ev[0][0] == 'emitEndElement')
        a = ev[0][1]
        w.ok('the element ended is the one named', I.same(a['name'], tag))
        w.ok('the end is not implied', zero(I, a.get('implied')))
        w.ok('there is an end tag', zero(I, a.get('isend')))
        w.ok('it is the innermost element then', ev[0][4] == top + 1)
        w.ok('its own namespace bindings hold then',
             ev[0][5] == top + 1 - w.n)
        w.ok('the element is closed, and no other', z3.And(
            n == top, not items))
        w.ok('its namespace bindings end', w.ns == top - w.n)
        I.x.cover(I, 'ends normally')
    except SymRaise as e:
        if w.error is not None:
            return passed(w, e)
        w.ok('rejected as an empty tag', e.exc.cls is h.EmptyTagError)
        w.ok('only void elements have no end tag', z3.And(
            void, z3.Not(inscript)))
        w.ok('nothing is done before', not w.events)
        I.x.cover(I, 'rejected')
    except Mismatch:
        pass


# ------------------------------------------------------- close_para_tags
def down(I, it):
    """range(n - 1, -1, -1)"""
    c = isinstance(it, Ref) and I.cell(it)
    if isinstance(c, HObj) and c.cls is range:
        lo, hi, st = (c.fields[x] for x in ('lo', 'hi', 'step'))
        if isinstance(st, Py) and st.v == -1 and isinstance(hi, Py) and \
                hi.v == -1:
            n = z3.simplify(I.term(lo, 'int') + 1)
            return n, lambda k: Sym('int', z3.simplify(n - 1 - k))
    if isinstance(c, HObj) and c.cls is reversed:
        s = sequence(I, c.fields['of'])
        if s:
            return s[0], lambda k: s[1](z3.simplify(s[0] - 1 - k))
    return None


class Scan(ForRule):
    """Looking through the open elements for what is to be closed."""

    def __init__(self, w, up, downwards):
        ForRule.__init__(
            self, w, self.forgetting,
            lambda I, it: self.seq(I, it)[0],
            lambda I, it, k: self.seq(I, it)[1](k), inv=self.invariant,
            pred=lambda I, s, fr, it: down(I, it) or sequence(I, it))
        self.up, self.downwards = up, downwards

    def seq(self, I, it):
        return down(I, it) or sequence(I, it)

    def start_for(self, I, s, fr, it):
        self.names = [v for v in assigned(s) if v in fr.env
                      and isinstance(fr.env[v], Py)
                      and fr.env[v].v == -1]
        if len(self.names) != 1:
            raise Unsupported('result of the search')
        self.isdown = down(I, it) is not None
        self.w.ok('all open elements are looked at',
                  self.seq(I, it)[0] == self.w.n)
        self.found = None
        ForRule.start_for(self, I, s, fr, it)

    def forgetting(self, I, fr, w):
        fr.env[self.names[0]] = I.fint('close_to')

    def invariant(self, I, fr, w):
        f = self.downwards if self.isdown else self.up
        if f is None:
            raise Unsupported('direction of the search')
        yield from f(I, self.k, I.term(fr.env[self.names[0]], 'int'))


def para(I):
    from zope.tal import htmltalparser as h
    w = Parser(I, 'close_para_tags')
    P = h.HTMLTALParser
    tag = I.fstr('tag')
    w.proper(tag.t)
    I.x.contracts[P.implied_endtag] = bare(w.c_implied)
    I.x.contracts[h.OpenTagError.__init__] = lambda I, **kw: Py(None)
    n, at = w.n, w.tag
    # which kind of element is it?
    kinds = sorted(SIBLINGS)
    k = I.decide(len(kinds) + 3)
    if k < len(kinds):
        kind = kinds[k]
        I.assume(tag.t == strval(kind))
        same = SIBLINGS[kind]
        # first(i): among the first i elements, where those to close begin
        first = z3.Function('first', Int, Int)
        I.assume(first(0) == -1)

        def unfold(i):
            t = at(i)
            return z3.Implies(z3.And(i >= 0, i < n), z3.And(
                first(i + 1) == z3.If(
                    among(t, same), z3.If(first(i) == -1, i, first(i)),
                    z3.If(among(t, BLOCKS), -1, first(i))),
                first(i + 1) >= -1, first(i + 1) <= i))
        w.facts.append(unfold)
        goal = first(n)
        I.assume(z3.And(goal >= -1, goal < z3.If(n > 0, n, 1)))

        def up(I, k, v):
            yield 'begin of the elements to close', v == first(k)
        scan = Scan(w, up, None)
        refused = z3.BoolVal(False)
    elif k == len(kinds):
        # a paragraph, a heading or a block
        I.assume(among(tag.t, (HEADINGS | BLOCKS | {'p'}) - set(SIBLINGS)))
        b = I.fresh('innermost block', Int)
        I.assume(z3.And(b >= -1, b < n))
        I.assume(z3.Implies(b >= 0, among(at(b), BLOCKS)))
        w.facts.append(lambda i: z3.Implies(z3.And(i > b, i < n), z3.Not(
            among(at(i), BLOCKS))))
        # low(i): the outermost paragraph from the i-th element on
        low = z3.Function('low', Int, Int)
        I.assume(low(n) == -1)
        w.facts.append(lambda i: z3.Implies(z3.And(i >= 0, i < n), low(i)
                                            == z3.If(at(i) == strval('p'), i,
                                                     low(i + 1))))
        goal = low(b + 1)
        # any place in the paragraph level
        h0 = I.fresh('any place', Int)
        inside = z3.And(h0 > b, h0 < n)
        refused = None

        def downwards(I, k, v):
            i = n - k           # elements from the i-th on are done
            yield 'not past a block', i > b
            yield 'outermost paragraph', v == low(i)
            yield 'paragraphs are open elements', z3.And(v >= -1, v < n)
            yield 'no heading is open', z3.Implies(
                z3.And(inside, h0 >= i), z3.Not(among(at(h0), HEADINGS)))
        scan = Scan(w, None, downwards)
    else:
        scan = None
        sec = HEADINGS | BLOCKS | {'p'} | set(SIBLINGS)
        if k == len(kinds) + 1:
            I.assume(among(tag.t, VOID))
        else:
            I.assume(z3.Not(among(tag.t, sec | VOID)))
        goal, refused = z3.IntVal(-1), z3.BoolVal(False)
    close = Popping(w, lambda m: [('elements to keep', m >= goal)])
    I.x.rule = [r for r in (scan, close) if r is not None]
    try:
        I.call(I.getattr(w.obj, 'close_para_tags'), [tag])
        m, items = w.open_now()
        w.ok('closed as far as needed', z3.And(
            m == z3.If(goal >= 0, goal, n), not items))
        w.ok('namespace bindings go with the elements', w.ns == m - n)
        w.closing((1, 'a start tag'))
        if refused is None:
            w.ok('no heading is open', z3.Implies(inside, z3.Not(
                among(at(h0), HEADINGS))))
        I.x.cover(I, 'ends normally')
        I.x.cover(I, 'kind %d' % k)
    except SymRaise as e:
        if w.error is not None:
            w.closing((1, 'a start tag'))
            return passed(w, e)
        w.ok('rejected as a tag in a heading',
             e.exc.cls is h.OpenTagError and refused is None)
        i = z3.simplify(n - 1 - scan.k)
        w.ok('rejected only in a heading', z3.And(
            i > b, i < n, among(at(i), HEADINGS)))
        w.ok('nothing is closed', not w.events)
        I.x.cover(I, 'rejected')
    except Mismatch:
        pass


# -------------------------------------------------------------- start tags
class Attributes(Opaque):
    """The attributes of an element; which ones is of no account here."""

    name = 'attributes'

    def __init__(self, w):
        self.w = w

    def getattr(self, I, o, name):
        from pyvc.core import Method
        return Method(name, o)

    def call(self, I, o, name, args, kw):
        if name == 'remove':
            self.w.removed.append(args[0])
            return Py(None)
        raise Unsupported('attributes.%s' % name)

    def comp(self, I, o, e, gen, fr):
        """Those of them that are picked out, by way of one of them."""
        if I.decide(2):
            items = []
        else:
            v = I.fstr('attribute value')
            if I.decide(2):
                v = Py(None)
            items = [Tup((I.fstr('attribute'), v))]
        fr.env['<attributes>'] = I.new_list(items)
        e = type(e)(e.elt, [ast.comprehension(gen.target, ast.Name(
            '<attributes>', ast.Load()), gen.ifs, 0)])
        return I.ev(ast.fix_missing_locations(e), fr)


class ParseExplorer(Explorer):
    def comp_model(self, I, e, gen, it, fr):
        c = I.cell(it) if isinstance(it, Ref) else None
        if isinstance(c, HObj) and isinstance(c.model, Attributes):
            return c.model.comp(I, it, e, gen, fr)
        return Explorer.comp_model(self, I, e, gen, it, fr)


def code(I, w, tag, c, base):
    """Program text in the template: <script type="text/server-...">"""
    w.ok('the directives are those of the tag', len(w.removed) == 1
         and isinstance(w.removed[0], Tup))
    k, v = w.removed[0].items
    w.ok('only a script is program text', z3.And(
        tag.t == strval('script'), as_bool(I.eq_term(k, Py('type'))),
        z3.PrefixOf(strval('text/server-'), I.term(v, 'str'))))
    got = {}
    for e in c.entries:
        w.ok('directives of program text', e[0] is None
             and isinstance(e[1], Py) and e[1].v in ('script', 'omit-tag'))
        got[e[1].v] = e[2]
    w.ok('program text is run', I.same(got.get('script'), v))
    own = base.has_(strval('omit-tag'))
    w.ok('the tag is left out unless told otherwise', own if 'omit-tag'
         not in got else z3.And(z3.Not(own), I.same(got['omit-tag'],
                                                    Py(''))))
    w.ok('the other directives stay', c.base is base and not base.gone)
    I.x.cover(I, 'program text')


def starting(I, method):
    from zope.tal import htmltalparser as h
    w = Parser(I, method)
    P = h.HTMLTALParser
    tag = I.fstr('tag')
    w.proper(tag.t)
    attrs = I.fobj('attrs')
    attrlist = I.alloc(HObj(list, {}, model=Attributes(w)))
    content = I.fresh('has content', Bool)

    def directives(name):
        m = Map(name, z3.Function(name, Str, Bool),
                lambda k: I.fobj('value'))
        m.some = I.fresh('some ' + name, Bool)
        return I.alloc(HDict(base=m, frozen=name != 'tal'))
    tal, metal, i18n = (directives(x) for x in ('tal', 'metal', 'i18n'))
    has = I.cell(tal).base.has_(strval('content'))
    I.assume(has == content)
    I.assume(z3.Implies(content, I.cell(tal).base.some))
    w.removed = []
    m = I.fresh('kept open', Int)
    I.assume(z3.And(m >= 0, m <= w.n))
    w.room = w.read = 0

    def c_para(I, tag, **kw):
        w.ok('room is made for this tag, first of all', I.same(tag, tag0)
             and not w.room and not w.events)
        w.room = 1
        if I.decide(2):
            w.error = ExcVal(None, t=I.fresh('refusal', Obj))
            raise SymRaise(w.error)
        I.cell(w.tags).base = w.stack(m)
        w.ns = m - w.n
        return Py(None)

    def c_ns(I, name, attrs, **kw):
        w.ok('namespaces are those of this element', w.events and
             w.events[-1][0] == 'scan' and I.same(name, tag0)
             and not w.read)
        w.read = 1
        if I.decide(2):
            w.error = ExcVal(None, t=I.fresh('refusal', Obj))
            raise SymRaise(w.error)
        return Tup((name, attrlist, tal, metal, i18n))
    tag0 = tag
    ct = I.x.contracts
    ct[P.close_para_tags] = bare(c_para)
    ct[P.process_ns] = bare(c_ns)
    ct[P.implied_endtag] = bare(w.c_implied)
    void = among(tag.t, VOID)
    try:
        I.call(I.getattr(w.obj, method), [tag, attrs])
    except SymRaise as e:
        from zope.tal.taldefs import TALError
        if w.error is not None:
            return passed(w, e)
        w.ok('rejected as a TAL error', e.exc.cls is TALError)
        w.ok('only void elements have no content', z3.And(void, content))
        w.ok('nothing is put out', len(w.events) == 1)
        I.x.cover(I, 'rejected')
        return
    except Mismatch:
        return
    try:
        n, items = w.open_now()
        w.ok('a void element with content is rejected', z3.Not(
            z3.And(void, content)))
        starts = [e for e in w.events if e[0] == 'emitStartElement']
        ends = [e for e in w.events if e[0] in ('emitEndElement', 'implied')]
        w.ok('the element is started once', len(starts) == 1
             and len(starts) + len(ends) + 1 == len(w.events))
        st = starts[0]
        a = st[1]
        w.ok('the start is that of the tag', I.same(a['name'], tag)
             and a['attrlist'] == attrlist and a['metaldict'] == metal
             and a['i18ndict'] == i18n)
        c = I.cell(a['taldict'])
        if w.removed or c.entries:
            code(I, w, tag, c, I.cell(tal).base)
        else:
            w.ok('the directives are those read', a['taldict'] == tal)
        w.ok('namespace bindings of the element hold', st[5] == m + 1 - w.n)
        if method == 'handle_startendtag':
            isend = as_bool(I.truth(a.get('isend', Py(0))))
            w.ok('nothing more is open', z3.And(n == m, not items))
            w.ok('its namespace bindings end', w.ns == m - w.n)
            w.ok('the element is ended once', z3.If(isend, len(ends) == 0,
                                                    len(ends) == 1))
            for e in ends:
                w.ok('the element ended is this one', e[0]
                     == 'emitEndElement' and I.same(e[1]['name'], tag)
                     and w.events.index(e) > w.events.index(st))
            I.x.cover(I, 'ends normally')
            return
        w.ok('an element with contents', zero(I, a.get('isend')))
        w.ok('the element is open', len(st[3]) == 1 and I.same(
            st[3][0], tag) and st[4].eq(m))
        if I.branch(void):
            w.ok('a void element is closed at once', len(ends) == 1
                 and ends[0][0] == 'implied' and I.same(ends[0][1], tag))
            w.ok('without an end tag', I.eq_term(ends[0][2], Py(-1)))
            w.ok('nothing more is open', z3.And(n == m, not items))
            w.ok('its namespace bindings end', w.ns == m - w.n)
            I.x.cover(I, 'void')
        else:
            w.ok('other elements stay open', not ends)
            w.ok('one more element is open', z3.And(n == m, len(
                items) == 1 and I.same(items[0], tag)))
            w.ok('its namespace bindings hold', w.ns == m + 1 - w.n)
            I.x.cover(I, 'ends normally')
    except Mismatch:
        pass


def start_tag(I):
    starting(I, 'handle_starttag')


def start_end_tag(I):
    starting(I, 'handle_startendtag')


def whole(I):
    """At the end of the document all elements are closed."""
    from zope.tal.htmltalparser import HTMLTALParser as P
    w = Parser(I, 'parseString')
    data = I.fstr('data')
    w.fed = []
    f = I.cell(w.obj).fields
    f['nsstack'] = I.alloc(HObj(list, {}, model=Bindings(w)))

    def feed(I, **kw):
        w.ok('the document is read once', not w.fed and any(
            I.same(x, data) for x in kw.values()))
        w.fed.append('feed')
        return fail(I)

    def close(I, **kw):
        w.ok('the end of the document is told', w.fed == ['feed'])
        w.fed.append('close')
        return fail(I)

    def fail(I):
        if I.decide(2):
            w.error = ExcVal(None, t=I.fresh('refusal', Obj))
            raise SymRaise(w.error)
        return Py(None)
    ct = I.x.contracts
    ct[P.feed], ct[P.close] = feed, close
    ct[P.implied_endtag] = bare(w.c_implied)
    I.x.rule = Popping(w, lambda n: [])
    try:
        I.call(I.getattr(w.obj, 'parseString'), [data])
        n, items = w.open_now()
        w.ok('everything is read', w.fed == ['feed', 'close'])
        w.ok('all elements are closed', z3.And(n == 0, not items))
        w.closing((2, 'the end of the document'))
        I.x.cover(I, 'ends normally')
    except SymRaise as e:
        if w.error is not None:
            w.closing((2, 'the end of the document'))
            return passed(w, e)
        raised(w, e, 'does not fail')
    except Mismatch:
        pass


class Bindings(Opaque):
    """The stack of namespace bindings: one for each open element."""

    name = 'nsstack'

    def __init__(self, w):
        self.w = w

    def now(self):
        return z3.simplify(self.w.n + self.w.ns)

    def length(self, I, o):
        return Sym('int', self.now())

    def truth(self, I, o):
        return self.now() > 0

    def equals(self, I, o, v):
        items = I.seq_items(v)
        if items == []:
            return self.now() == 0
        raise Unsupported('comparison')


PARTS = {
    'start tags': (start_tag, 'handle_starttag'),
    'empty elements': (start_end_tag, 'handle_startendtag'),
    'document': (whole, 'parseString'),
    'implied ends': (implied, 'implied_endtag'),
    'enclosed elements': (enclosed, 'close_enclosed_tags'),
    'end tags': (end_tag, 'handle_endtag'),
    'making room': (para, 'close_para_tags'),
}


def run(c, names, keep=None):
    from zope.tal.htmltalparser import HTMLTALParser
    for name in names:
        entry, fn = PARTS[name]
        try:
            x = ParseExplorer()
            x.rule = None
            rule = Rule(x)
            x.loops = [(rule.pick, rule)]
            x.max_seconds = 120
            x.run(judged(entry), name)
        except Exception as e:
            c.undecide('%s: %s: %s' % (name, type(e).__name__, e))
            continue
        c.explorer(x, name, keep, lambda n: 'loop invariant' in n)
        c.under_contract(getattr(HTMLTALParser, fn))
        if not x.obligations:
            c.undecide('%s: no obligations' % name)
        elif not x.covers.get('ends normally'):
            c.undecide('%s: no normal end' % name)
    c.assume('html.parser.HTMLParser reports the constructs of the text in '
             'order, tag and attribute names in lower case, and getpos() is '
             'the place of the construct being reported',
             'the parser of a tag uses the generator, the namespace scanner '
             'and process_ns by their contracts')
