"""Contracts of the functions the compilation of an element relies on.

checks.gensym takes these contracts for granted where the functions are
called; here each of them is discharged from the function's own text.
"""
import ast
import re

from pyvc.core import (Bool, ExcVal, Frame, HDict, HList, HObj, Int, Method, Obj, Py,
                       Ref, Str, Sym, SymRaise, SymSeq, Tup, Union,
                       Unsupported, strval, z3)
from pyvc.explore import Explorer, MatchModel, Parts
from pyvc import rxeq
from checks import rxspec
from checks.isym import Mismatch, Rule, WhileRule, judged
from checks.optsym import Loop, Scene, as_bool, sequence


class HelpExplorer(Explorer):
    """Patterns are known by what they are for."""

    among = ()
    pieces = None

    def re_match(self, I, pat, name, s):
        t = I.term(s, 'str')
        what = rxspec.recognise(pat, name, False, self.among)
        if not what:
            self.strange.append((pat, name))
            return Explorer.re_match(self, I, pat, name, s)
        src, how = rxspec.spec(what)
        self.seen.add(what)
        m = I.alloc(HObj(None, {}, model=MatchModel(src, how, t)))
        ok = matches(what, t)
        if what == 'substitution':          # a pattern that always matches
            return m
        if what == 'line end':
            a, b = (I.term(I.cell(m).model.group(I, i), 'str')
                    for i in (1, 2))
            I.assume(z3.Implies(ok, z3.And(t == z3.Concat(a, b), line_end(b))))
        if what == 'blanks':
            I.assume(ok == blanks(t))
        if what == 'white space':
            I.assume(ok == spaces(t))
        if what == 'white space at the end':
            b = I.term(I.cell(m).model.group(I, 0), 'str')
            k = I.term(I.cell(m).model.call(I, m, 'start', [], {}), 'int')
            I.assume(z3.Implies(ok, z3.And(
                k + z3.Length(b) == z3.Length(t),
                t == z3.Concat(z3.SubString(t, 0, k), b), spaces(b))))
        return Union([(ok, m), (z3.Not(ok), Py(None))])

    def str_method(self, I, o, name, args, kw):
        if name == 'split' and self.pieces is not None and len(
                args) == 1 and isinstance(args[0], Py) and args[0].v == ';' \
                and I.same(o, self.pieces[0]):
            return self.pieces[1]
        return Explorer.str_method(self, I, o, name, args, kw)

    def comp_model(self, I, e, gen, it, fr):
        """Those strings that are not empty."""
        if self.pieces is not None and it == self.pieces[1] and len(
                gen.ifs) == 1 and isinstance(gen.target, ast.Name) \
                and isinstance(e.elt, ast.Name) \
                and e.elt.id == gen.target.id:
            x = I.fstr('piece')
            sub = Frame(fr.fn, dict(fr.env), fr.glob, fr.parent)
            sub.masklen, sub.dead, sub.line = len(I.mask), [], e.lineno
            I.assign(gen.target, x, sub)
            t = as_bool(I.truth(I.ev(gen.ifs[0], sub)))
            I.prove('empty pieces are left out, and no others',
                    t == (x.t != strval('')))
            return self.pieces[2]
        return Explorer.comp_model(self, I, e, gen, it, fr)

    def sorted_model(self, I, v, c):
        if isinstance(c, HObj) and 'dict' in c.fields and \
                c.fields['what'].v == 'items':
            d = I.cell(c.fields['dict'])
            if isinstance(d.base, Map) and not d.entries:
                return d.base.listed(I, d)
        return None


def matches(what, t):
    return z3.Function('matches ' + what, Str, Bool)(t)


def group(I, what, t, k):
    return MatchModel(*rxspec.spec(what), t).group(I, k)


class Map:
    """The contents of a dictionary: which keys, and what for them."""

    def __init__(self, name, has, val):
        self.name, self.has_, self.val = name, has, val
        self.gone = []
        self.some = None

    def copy(self):
        m = Map(self.name, self.has_, self.val)
        m.gone, m.some = list(self.gone), self.some
        return m

    def has(self, I, k):
        return self.has_(I.term(k, 'str'))

    def get(self, I, k):
        return self.val(I.term(k, 'str'))

    def deleted(self, I, c, k):
        t = I.term(k, 'str')
        return [t == x for x in self.gone]

    def delete(self, I, o, c, k):
        self.gone.append(I.term(k, 'str'))

    def truth(self, I, c):
        if c.entries:
            return True
        if self.some is None or self.gone:
            raise Unsupported('truth of a dictionary')
        return self.some

    def now(self, t):
        return z3.And(self.has_(t), *[t != x for x in self.gone])

    def listed(self, I, d):
        n = I.fint('nitems')
        I.assume(n.t >= 0)
        keys = z3.Function('key of ' + self.name, Int, Str)
        r = HList(base=SymSeq(self.name, n.t, lambda i: Tup(
            (Sym('str', keys(i), str), self.val(keys(i))))))
        r.base.of = self
        r.base.key = keys
        return I.alloc(r)


def texts(I, name):
    """An arbitrary list of strings."""
    n = I.fint('number of ' + name)
    I.assume(n.t >= 0)
    f = z3.Function(name, Int, Str)
    return I.alloc(HList(base=SymSeq(name, n.t, lambda i: Sym(
        'str', f(i), str)), frozen=True)), n.t


class Over(Loop):
    """A loop over all of these strings."""

    def __init__(self, seq, *args, **kw):
        Loop.__init__(self, *args, **kw)
        self.seq, self.whole = seq, False

    def start_for(self, I, s, fr, it):
        n = sequence(I, it)[0]
        seqs = self.seq if isinstance(self.seq, tuple) else (self.seq,)
        base = [b for b in [I.cell(s).base for s in seqs]
                if n.eq(b.length)]
        self.w.ok('all parts are looked at', not self.whole
                  and len(base) == 1)
        base = base[0]
        Loop.start_for(self, I, s, fr, it)
        self.whole = True
        self.part = base.at(self.k)

    def again(self, I, fr, n0):
        x = self.cur.items[-1] if isinstance(self.cur, Tup) else self.cur
        self.w.ok('part by part', I.same(x, self.part))
        Loop.again(self, I, fr, n0)


def items_of(c):
    if any(g is not None for g, _ in c.items):
        raise Unsupported('conditional item')
    return [x for _, x in c.items]


def raised(w, e, what):
    w.ok('%s (%s)' % (what, e.exc.cls and e.exc.cls.__name__), False)


def opaque_list(I, name):
    n = I.fint('length of ' + name)
    I.assume(n.t >= 0)
    f = z3.Function(name, Int, Obj)
    return I.alloc(HList(base=SymSeq(name, n.t, lambda i: Sym('obj', f(i)))))


# -------------------------------------------------------------- the stacks
def stacks(I):
    """Programs and slots under construction are kept on stacks."""
    from zope.tal.talgenerator import TALGenerator as G
    k = I.decide(6)
    name = ('pushProgram', 'popProgram', 'pushSlots', 'popSlots', 'todoPush',
            'todoPop')[k]
    w = Scene(I, name)
    prog, slots = opaque_list(I, 'program'), I.new_dict(
        [[None, I.fstr('slot'), I.fobj('filler')]])
    under, uslots = I.fobj('surrounding program'), I.fobj(
        'surrounding slots')
    todo = I.fobj('to do')

    def stack(name, top=None):
        r = opaque_list(I, name)
        if top is not None:
            I.cell(r).items.append((None, top))
        return r
    st = {'stack': stack('stack', under if k == 1 else None),
          'slotStack': stack('slotStack', uslots if k == 3 else None),
          'todoStack': stack('todoStack', todo if k == 5 else None)}
    fields = dict(st, program=prog, slots=slots)
    gen = I.new_obj(G, fields)
    done = I.fobj('finished program')
    calls = []

    def optimize(I, self, program):
        calls.append(program)
        return done
    I.x.contracts[G.optimize] = optimize
    mine = ('stack', 'stack', 'slotStack', 'slotStack', 'todoStack',
            'todoStack')[k]
    bases = {n: I.cell(r).base for n, r in st.items()}
    new = I.next_addr
    try:
        r = I.call(I.getattr(gen, name), [todo] if k == 4 else [])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    now = I.cell(gen).fields
    for n, ref in st.items():
        w.ok('%s is the same list' % n, now[n] == ref
             and I.cell(ref).base is bases[n])
        items = items_of(I.cell(ref))
        if n != mine:
            w.ok('%s stays' % n, not items)
        elif k in (1, 3, 5):
            w.ok('the top is taken off', not items)
        else:
            w.ok('what is put aside is on top', len(items) == 1 and I.same(
                items[0], (prog, None, slots, None, todo)[k]))
    if k == 0:
        w.ok('an empty program is begun', now['program'].addr >= new
             and not I.cell(now['program']).items
             and I.cell(now['program']).base is None)
        w.ok('the program put aside stays', not I.cell(prog).items)
    elif k == 1:
        w.ok('the surrounding program goes on', I.same(now['program'], under))
        w.ok('the program taken off is finished', len(calls) == 1
             and calls[0] == prog and I.same(r, done)
             and not I.cell(prog).items)
    elif k == 2:
        w.ok('no slots at first', now['slots'].addr >= new
             and not I.cell(now['slots']).entries
             and I.cell(now['slots']).base is None)
    elif k == 3:
        w.ok('the surrounding slots are used again', I.same(
            now['slots'], uslots))
        w.ok('the slots taken off are the result', r == slots
             and len(I.cell(slots).entries) == 1)
    elif k == 5:
        w.ok('the top is the result', I.same(r, todo))
    if k not in (0, 1):
        w.ok('the program stays', now['program'] == prog
             and not I.cell(prog).items)
    if k not in (2, 3):
        w.ok('the slots stay', now['slots'] == slots
             and len(I.cell(slots).entries) == 1)
    I.x.cover(I, 'ends normally')
    I.x.cover(I, name)


def emitting(I):
    """One instruction is added to the program at hand."""
    from zope.tal.talgenerator import TALGenerator as G
    k = I.decide(6)
    name = ('emit', 'emitStartTag', 'emitEndTag', 'emitRawText', 'emitText',
            'emitEndTag')[k]
    w = Scene(I, name)
    prog = opaque_list(I, 'program')
    last = None
    if k == 5:
        last = Tup((I.fstr('opcode'), I.fstr('tag'), I.fobj('attrs')))
        I.cell(prog).items.append((None, last))
    elif k == 2:
        I.assume(I.cell(prog).base.length == 0)
    base = I.cell(prog).base
    xml = I.fbool('xml')
    gen = I.new_obj(G, {'program': prog, 'xml': xml})
    s, o = I.fstr('name'), I.fobj('attrlist')
    isend = I.fbool('isend')
    esc = z3.Function('escaped', Str, Str)

    def escape(I, s, quote=Py(True)):
        w.ok('quotes are left alone', isinstance(quote, Py)
             and not quote.v)
        return Sym('str', esc(I.term(s, 'str')), str)
    import html
    I.x.contracts[html.escape] = escape
    args = ([Py('op'), s, o], [s, o, isend], [s], [s], [s], [s])[k]
    try:
        I.call(I.getattr(gen, name), args)
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('the program is the same list',
         I.cell(gen).fields['program'] == prog
         and I.cell(prog).base is base)
    items = items_of(I.cell(prog))
    if k == 5:
        small = z3.And(I.term(xml, 'bool'), as_bool(I.eq_term(
            last.items[0], Py('startTag'))))
        if I.branch(small):
            w.ok('an element without contents is one tag', len(items) == 1
                 and instruction(I, items[0], Py('startEndTag'),
                                 *last.items[1:]))
            I.x.cover(I, 'one tag')
        else:
            w.ok('what was there stays', len(items) == 2
                 and I.same(items[0], last))
            w.ok('an end tag', instruction(I, items[1], Py('endTag'), s))
            I.x.cover(I, 'end tag')
    else:
        w.ok('one instruction', len(items) == 1)
        want = (args, [Py('startTag'), s, o], [Py('endTag'), s],
                [Py('rawtext'), s],
                [Py('rawtext'), Sym('str', esc(s.t), str)])[k]
        if k == 1:
            if I.branch(I.term(isend, 'bool')):
                want[0] = Py('startEndTag')
        w.ok('the instruction', instruction(I, items[0], *want))
    I.x.cover(I, 'ends normally')


def instruction(I, x, *want):
    return isinstance(x, Tup) and len(x.items) == len(want) and all(
        I.same(a, b) for a, b in zip(x.items, want))


# ------------------------------------------------------------- expressions
class Compiler:
    """An expression compiler: an answer, its own error, or another one."""

    def __init__(self, w):
        self.w = w

    def getattr(self, I, o, name):
        if name in ('compile', 'getCompilerError'):
            return Method(name, o)
        return None

    def call(self, I, o, name, args, kw):
        if name != 'compile' or kw or len(args) != 1:
            raise Unsupported('compiler.%s' % name)
        w = self.w
        w.events.append(args[0])
        k = I.decide(3)
        if k == 0:
            w.answer = I.fobj('compiled')
            return w.answer
        if k == 1:
            w.refused = ExcVal(Refusal, args=(I.fobj('reason'),))
            raise SymRaise(w.refused)
        w.other = ExcVal(Broken)
        raise SymRaise(w.other)


class Refusal(Exception):
    """The error of an expression compiler."""


class Broken(Exception):
    """Any other error."""


def compile_expression(I):
    from zope.tal.taldefs import TALError
    from zope.tal.talgenerator import TALGenerator as G
    w = Scene(I, 'compileExpression')
    w.answer = w.refused = w.other = None
    comp = I.alloc(HObj(None, {}, model=Compiler(w)))
    pos = Tup((I.fint('line'), I.fint('offset')))
    prog = opaque_list(I, 'program')
    gen = I.new_obj(G, {'expressionCompiler': comp, 'position': pos,
                        'CompilerError': Py(Refusal), 'program': prog})
    expr = I.fstr('expr')
    try:
        r = I.call(I.getattr(gen, 'compileExpression'), [expr])
        w.ok('the expression is compiled once', len(w.events) == 1
             and I.same(w.events[0], expr))
        w.ok('the result is the compiled expression',
             w.answer is not None and I.same(r, w.answer))
        I.x.cover(I, 'ends normally')
    except SymRaise as e:
        if w.refused is not None:
            w.ok('a refused expression is a template error',
                 e.exc.cls is TALError)
            p = raised_args(I, e.exc, 'position')
            w.ok('the error is at the element', p is not None
                 and I.same(p, pos))
            I.x.cover(I, 'refused')
        else:
            w.ok('other errors pass unchanged', w.other is not None
                 and e.exc is w.other)
            I.x.cover(I, 'other error')


def raised_args(I, exc, what):
    """The position an error was made with."""
    if exc.args and len(exc.args) > 1:
        return exc.args[1]
    ref = getattr(exc, 'ref', None)
    if ref is not None:
        f = I.cell(ref).fields
        if 'lineno' in f and 'offset' in f:
            return Tup((f['lineno'], f['offset']))
    return None


def emit_defines(I):
    from zope.tal import taldefs
    from zope.tal.talgenerator import TALGenerator as G
    w = Scene(I, 'emitDefines')
    given = arg = I.fstr('defines')
    parts, n = texts(I, 'parts')
    compiles = z3.Function('compiles', Str, Bool)
    compiled = z3.Function('compiled', Str, Obj)

    def split(I, **kw):
        a, = kw.values()
        w.ok('the whole value is split', I.same(a, given))
        return parts

    def compile_(I, self, expr):
        t = I.term(expr, 'str')
        w.events.append(('compile', t))
        if not I.branch(compiles(t)):
            raise SymRaise(ExcVal(taldefs.TALError))
        return Sym('obj', compiled(t))

    def emit(I, self, instruction):
        w.events.append(('emit', instruction))
        return Py(None)
    I.x.contracts.update({taldefs.splitParts: split,
                          G.compileExpression: compile_, G.emit: emit})
    gen = I.new_obj(G, {'position': Tup((I.fint('line'), I.fint('off')))})

    def right(t):
        return z3.And(matches('define', t), compiles(
            I.term(group(I, 'define', t, 3), 'str')))

    def step(I, fr):
        t = I.term(rule.part, 'str')
        w.ok('a wrong part is an error', right(t))
        got = [e for e in w.events if e[0] == 'emit']
        w.ok('one instruction for each part', len(got) == 1)
        it = got[0][1]
        w.ok('instruction has name and expression', isinstance(it, Tup)
             and len(it.items) == 3)
        sc = group(I, 'define', t, 1)
        has, val = sc.alts[0]
        # the pattern admits two words only
        I.assume(z3.Implies(has, z3.Or(val.t == strval('global'),
                                       val.t == strval('local'))))
        glob = z3.And(has, val.t == strval('global'))
        w.ok('global exactly if it says so', z3.And(
            z3.Implies(glob, as_bool(I.eq_term(it.items[0],
                                               Py('setGlobal')))),
            z3.Implies(z3.Not(glob), as_bool(I.eq_term(
                it.items[0], Py('setLocal'))))))
        w.ok('name of the variable', I.eq_term(
            it.items[1], group(I, 'define', t, 2)))
        w.ok('expression of the variable', I.term(it.items[2], 'obj')
             == compiled(I.term(group(I, 'define', t, 3), 'str')))
        I.x.cover(I, 'a definition')
    rule = Over(parts, w, lambda I, fr, w: w.events.clear(), step)
    I.x.rule = rule
    try:
        I.call(I.getattr(gen, 'emitDefines'), [arg])
        w.ok('nothing besides the parts', not w.events and rule.whole)
        I.x.cover(I, 'ends normally')
    except SymRaise as e:
        cls = e.exc.cls
        w.ok('errors are template errors', cls is not None
             and issubclass(cls, taldefs.TALError))
        w.ok('a right part is no error',
             z3.Not(right(I.term(rule.part, 'str'))))
        I.x.cover(I, 'error')
    except Mismatch:
        pass


# ---------------------------------------------------------- substitutions
def parse_substitution(I):
    from zope.tal import taldefs
    w = Scene(I, 'parseSubstitution')
    arg = I.fstr('arg')
    try:
        r = I.call(Py(taldefs.parseSubstitution), [arg])
        t = arg.t
        w.ok('a pair', isinstance(r, Tup) and len(r.items) == 2)
        has, val = group(I, 'substitution', t, 1).alts[0]
        I.assume(z3.Implies(has, z3.Or(val.t == strval('text'),
                                       val.t == strval('structure'))))
        st = z3.And(has, val.t == strval('structure'))
        w.ok('structure exactly if it says so', z3.If(
            st, as_bool(I.eq_term(r.items[0], Py('structure'))),
            as_bool(I.eq_term(r.items[0], Py('text')))))
        w.ok('the expression', I.eq_term(
            r.items[1], group(I, 'substitution', t, 2)))
        I.x.cover(I, 'ends normally')
    except SymRaise as e:
        raised(w, e, 'does not fail')
    except Mismatch:
        pass


# --------------------------------------------- values made up of several
def folding(I, w, parts, call, one, errs):
    """A dictionary is built from parts, one key for each; one(I, part) ->
    (is it right, key, value, is it left out)."""
    st = {}

    def dicts(I, fr):
        ds = [x for x in fr.env.values() if isinstance(x, Ref)
              and isinstance(I.cell(x), HDict)]
        if len(ds) != 1:
            raise Unsupported('dictionaries of the parser')
        return ds[0]

    def before(I, fr, w):
        d = st['d'] = dicts(I, fr)
        w.ok('starts with nothing', not I.cell(d).entries
             and I.cell(d).base is None)

    def forget(I, fr, w):
        has = z3.Function('seen before', Str, Bool)
        st['has'] = has
        st['base'] = Map('so far', has, lambda k: I.fobj('value'))
        I.cell(st['d']).base = st['base']

    def step(I, fr):
        ok, key, val, skip = one(I, rule.part)
        w.ok('the dictionary is kept', dicts(I, fr) == st['d']
             and I.cell(st['d']).base is st['base']
             and not st['base'].gone)
        es = I.cell(st['d']).entries
        if I.branch(skip):
            w.ok('no entry for an empty part', not es)
            return
        w.ok('a wrong part is an error', z3.And(ok, z3.Not(
            st['has'](I.term(key, 'str')))))
        w.ok('one entry for each part', len(es) == 1 and es[0][0] is None)
        w.ok('the key', I.eq_term(es[0][1], key))
        w.ok('the value', I.eq_term(es[0][2], val))
        I.x.cover(I, 'a part')
    rule = Over(parts, w, forget, step,
                writes=lambda I, w: [('dict', st['d'].addr)])
    rule.before = before
    I.x.rule = rule
    try:
        r = call()
        w.ok('the result is what was collected', 'd' in st and r == st['d']
             and not I.cell(r).entries and rule.whole)
        I.x.cover(I, 'ends normally')
    except SymRaise as e:
        cls = e.exc.cls
        w.ok('errors are template errors (%s)' % (cls and cls.__name__),
             cls is not None and issubclass(cls, errs))
        ok, key, val, skip = one(I, rule.part)
        w.ok('a right part is no error', z3.Not(z3.Or(skip, z3.And(
            ok, z3.Not(st['has'](I.term(key, 'str')))))))
        I.x.cover(I, 'error')
    except Mismatch:
        pass


lower = z3.Function('lower', Str, Str)


def parse_attributes(I):
    from zope.tal import taldefs
    w = Scene(I, 'parseAttributeReplacements')
    arg, xml = I.fstr('arg'), I.fbool('xml')
    given = arg
    parts, n = texts(I, 'parts')

    def split(I, **kw):
        a, = kw.values()
        w.ok('the whole value is split', I.same(a, given))
        return parts
    I.x.contracts[taldefs.splitParts] = split

    def one(I, part):
        t = I.term(part, 'str')
        key = I.term(group(I, 'attribute', t, 1), 'str')
        return (matches('attribute', t), Sym('str', z3.If(
            I.term(xml, 'bool'), key, lowered(I, key)), str),
            group(I, 'attribute', t, 2), z3.BoolVal(False))
    folding(I, w, parts, lambda: I.call(
        Py(taldefs.parseAttributeReplacements), [arg, xml]), one,
        taldefs.TALError)


def i18n_attributes(I):
    """i18n:attributes: a name and maybe a message id in each piece."""
    from zope.tal import taldefs, talgenerator
    w = Scene(I, '_parseI18nAttributes')
    arg, xml = I.fstr('arg'), I.fbool('xml')
    parts, n = texts(I, 'pieces')
    full, m = texts(I, 'pieces that are not empty')
    at = I.cell(full).base.at

    def at_full(i):
        x = at(i)
        I.assume(x.t != strval(''))
        return x
    I.cell(full).base.at = at_full
    I.x.pieces = arg, parts, full
    pos = Tup((I.fint('line'), I.fint('offset')))
    words = z3.Function('split_ws', Str, Parts)
    nth = z3.Function('part', Parts, Int, Str)
    count = z3.Function('nparts', Parts, Int)

    def one(I, part):
        t = I.term(part, 'str')
        ws = words(t)
        I.assume(count(ws) >= 0)
        key = nth(ws, 0)
        two = count(ws) == 2
        return (z3.Or(two, count(ws) == 1), Sym('str', z3.If(
            I.term(xml, 'bool'), key, lowered(I, key)), str),
            Union([(two, Sym('str', nth(ws, 1), str)),
                   (z3.Not(two), Py(None))]), t == strval(''))
    folding(I, w, (parts, full), lambda: I.call(
        Py(talgenerator._parseI18nAttributes), [arg, pos, xml]), one,
        taldefs.TALError)


def lowered(I, t):
    return I.term(I.str_method(Sym('str', t, str), 'lower', [], {}), 'str')


# --------------------------------------------------------------- attributes
def replace_attrs(I):
    """Each attribute once with its replacement; the others are added."""
    from zope.tal.talgenerator import TALGenerator as G
    w = Scene(I, 'replaceAttrs')
    n = I.fint('nattrs')
    I.assume(n.t >= 0)
    names = z3.Function('attr', Int, Str)
    long = I.decide(2)
    memo = {}

    def at(i):
        k = str(z3.simplify(i))
        if k not in memo:
            memo[k] = Tup((Sym('str', names(i), str), I.fobj('value'))
                          + ((I.fstr('namespace'),) if long else ()))
        return memo[k]
    abase = SymSeq('attrlist', n.t, at)
    attrs = I.alloc(HList(base=abase, frozen=True))
    given = z3.Function('replaced', Str, Bool)
    part = [z3.Function('repl%d' % i, Str, Obj) for i in range(3)]

    def val(k):
        return Tup([Sym('obj', f(k)) for f in part])
    m = Map('repldict', given, val)
    m.some = I.fresh('some replacement', Bool)
    repl = I.alloc(HDict(base=m, frozen=True))
    gen = I.new_obj(G, {})
    # p is any attribute name; seen: among the attributes before the k-th
    p = I.fresh('any', Str)
    seen = z3.Function('seen', Str, Int, Bool)
    st = {}

    def lists(I, fr):
        ls = [x for x in fr.env.values() if isinstance(x, Ref)
              and isinstance(I.cell(x), HList) and x != attrs]
        if len(ls) != 1:
            raise Unsupported('lists of the attributes')
        return ls[0]

    def dicts(I, fr):
        ds = {x.addr: x for x in fr.env.values() if isinstance(x, Ref)
              and isinstance(I.cell(x), HDict) and x != repl}
        if len(ds) != 1:
            raise Unsupported('dictionaries of the attributes')
        return list(ds.values())[0]

    def is_second(I, it):
        c = I.cell(it)
        return isinstance(c, HList) and hasattr(c.base, 'of')

    def before(I, fr, w):
        l, d = lists(I, fr), dicts(I, fr)
        c = I.cell(d)
        if st.get('loop') == 2:
            w.ok('what is left is added', c.base is st['seq'].of
                 and not c.entries)
            w.ok('what is left has not been replaced', c.base.now(p)
                 == z3.And(given(p), z3.Not(seen(p, n.t))))
            w.ok('to the attributes replaced', l == st['l']
                 and I.cell(l).base is st['base'] and not I.cell(l).items)
        else:
            st['l'], st['d'] = l, d
            w.ok('no attributes at first', not I.cell(l).items
                 and I.cell(l).base is None)
            w.ok('all replacements at first', not c.entries
                 and isinstance(c.base, Map) and not c.base.gone
                 and c.base.has_ is given)
            w.ok('the replacements given are not changed', d != repl)

    def forget(I, fr, w):
        c = I.cell(st['l'])
        k = I.fint('nnew')
        I.assume(k.t >= 0)
        st['base'] = c.base = SymSeq('new', k.t, lambda i: I.fobj('new'))
        c.items = []
        if st['loop'] == 1:
            kk = st['kk'] = I.fresh('k', Int)
            I.assume(kk >= 0)
            st['map'] = Map('left', lambda t: z3.And(
                given(t), z3.Not(seen(t, kk))), val)
            I.cell(st['d']).base = st['map']
        memo.clear()

    def step(I, fr):
        l, d = lists(I, fr), dicts(I, fr)
        w.ok('the lists are kept', l == st['l'] and d == st['d']
             and I.cell(l).base is st['base'])
        new = items_of(I.cell(l))
        w.ok('one attribute', len(new) == 1 and isinstance(new[0], Tup))
        if st['loop'] == 2:
            key, v = rule.cur.items
            w.ok('a new attribute', instruction(
                I, new[0], key, Py(None), Py('insert'), *v.items))
            w.ok('nothing else is taken', not I.cell(d).entries
                 and I.cell(d).base is st['seq'].of)
            I.x.cover(I, 'inserted')
            return
        k = st['kk']
        it, key = rule.cur, names(k)
        hit = z3.And(given(key), z3.Not(seen(key, k)))
        if I.branch(hit):
            w.ok('a replacement', instruction(
                I, new[0], it.items[0], it.items[1], Py('replace'),
                *val(key).items))
            I.x.cover(I, 'replaced')
        else:
            w.ok('an attribute without replacement stays',
                 I.same(new[0], it))
            I.x.cover(I, 'kept')
        c = I.cell(d)
        w.ok('no replacement is added', not c.entries
             and c.base is st['map'])
        w.ok('a replacement is used once', c.base.now(p) == z3.And(
            given(p), z3.Not(z3.Or(seen(p, k), p == key))))

    class Both(Loop):
        def start_for(self, I, s, fr, it):
            c = I.cell(it)
            if is_second(I, it):
                st['loop'], st['seq'] = 2, c.base
            else:
                w.ok('all attributes are looked at', it == attrs
                     and 'loop' not in st)
                st['loop'] = 1
            Loop.start_for(self, I, s, fr, it)
            if st['loop'] == 1:
                self.k = st['kk']

    def writes(I, w):
        return [('list', st['l'].addr)] + (
            [('dict', st['d'].addr)] if st['loop'] == 1 else [])
    rule = Both(w, forget, step, None, writes)
    rule.before = before
    I.x.rule = rule
    try:
        r = I.call(I.getattr(gen, 'replaceAttrs'), [attrs, repl])
        I.x.cover(I, 'ends normally')
        if not st:
            w.ok('attributes stay only if there are no replacements',
                 z3.Not(m.some))
            w.ok('the attributes', r == attrs)
            return
        w.ok('replaced and new attributes', st['loop'] == 2 and r == st['l']
             and I.cell(r).base is st['base'] and not I.cell(r).items)
    except SymRaise as e:
        raised(w, e, 'does not fail')
    except Mismatch:
        pass


# -------------------------------------------------------------- white space
def take_back(I, name):
    """Text at the end of a program is taken back, none is lost."""
    from zope.tal.talgenerator import TALGenerator as G
    w = Scene(I, name)
    n = I.fint('length')
    I.assume(n.t >= 0)
    israw = z3.Function('is text', Int, Bool)
    text = z3.Function('text', Int, Str)
    # text of the instructions from here on
    tail = z3.Function('tail', Int, Str)
    memo = {}

    def at(i):
        k = str(z3.simplify(i))
        if k not in memo:
            op = I.fstr('opcode')
            I.assume((op.t == strval('rawtext')) == israw(i))
            memo[k] = Tup((op, Sym('str', text(i), str)))
            I.assume(z3.Implies(z3.And(i >= 0, i < n.t), tail(i)
                                == z3.Concat(text(i), tail(i + 1))))
        return memo[k]
    base = SymSeq('program', n.t, at)
    prog = I.alloc(HList(base=base))
    I.assume(tail(n.t) == strval(''))
    if not closed():
        raise Unsupported('blanks')
    for f in (blanks, spaces):
        I.assume(f(strval('')))
    gen = I.new_obj(G, {'program': prog})
    return w, n.t, israw, text, tail, prog, gen, base


def roles(I, fr, prog):
    """The texts collected and the place in the program."""
    ls = [v for v, x in fr.env.items() if isinstance(x, Ref)
          and isinstance(I.cell(x), HList) and x != prog]
    ns = [v for v, x in fr.env.items() if isinstance(x, Sym)
          and x.kind == 'int']
    if len(ls) != 1 or len(ns) != 1:
        raise Unsupported('variables of the loop')
    return ls[0], ns[0]


def joined(I, ref):
    """Texts were collected from the end on."""
    c = I.cell(ref)
    if c.base is not None:
        raise Unsupported('list of texts')
    xs = list(reversed(items_of(c)))
    t = I.term(xs[-1], 'str') if xs else strval('')
    for y in reversed(xs[:-1]):
        joining(I, I.term(y, 'str'), t)
        t = z3.Concat(I.term(y, 'str'), t)
    return t


class Back(WhileRule):
    def __init__(self, w, prog, base, st, inv):
        WhileRule.__init__(self, w, self.forgetting, inv,
                           writes=lambda I, w: [('list', st['l'].addr),
                                                ('list', prog.addr)])
        self.prog, self.seq, self.st = prog, base, st

    def before(self, I, fr, w):
        st = self.st
        st['names'] = roles(I, fr, self.prog)
        st['l'] = fr.env[st['names'][0]]

    def forgetting(self, I, fr, w):
        l, i = self.st['names']
        fr.env[l], fr.env[i] = self.st['l'], I.fint('i')
        # two pieces, so that the order shows
        I.cell(self.st['l']).items = [(None, I.fstr('later')),
                                      (None, I.fstr('sooner'))]

    def again(self, I, fr, n0):
        c = I.cell(self.prog)
        self.w.ok('the program stays', c.base is self.seq and not c.items)
        WhileRule.again(self, I, fr, n0)


def rest(I, w, gen, prog, n):
    """(text put back at the end, length of what was left alone)"""
    c = I.cell(prog)
    w.ok('the program is the same list',
         I.cell(gen).fields['program'] == prog)
    new = items_of(c)
    w.ok('at most one text is put back', len(new) < 2 and all(
        isinstance(x, Tup) and len(x.items) == 2 for x in new))
    left = Py('')
    if new:
        w.ok('what is put back is text', I.same(new[0].items[0],
                                                Py('rawtext')))
        left = new[0].items[1]
    k = c.base.length
    w.ok('the beginning stays', z3.And(k >= 0, k <= n))
    return I.term(left, 'str'), k


def newline(I):
    """A line end and the blanks after it are taken back, or nothing."""
    w, n, israw, text, tail, prog, gen, base = take_back(
        I, 'unEmitNewlineWhitespace')
    st = {}

    def inv(I, fr, w):
        l, i = roles(I, fr, prog)
        got = joined(I, fr.env[l])
        t = I.term(fr.env[i], 'int')
        yield 'place', z3.And(t >= 0, t <= n)
        yield 'text taken so far', got == tail(t)
        yield 'blanks only', blanks(got)
    I.x.rule = Back(w, prog, base, st, inv)
    try:
        r = I.call(I.getattr(gen, 'unEmitNewlineWhitespace'), [])
        if isinstance(r, Py) and r.v is None:
            c = I.cell(prog)
            w.ok('nothing is taken: the program stays', c.base is base
                 and not c.items)
            I.x.cover(I, 'nothing to take')
            I.x.cover(I, 'ends normally')
            return
        left, k = rest(I, w, gen, prog, n)
        t = I.term(r, 'str')
        w.ok('no text is lost', z3.Concat(left, t) == tail(k))
        if z3.is_app(t) and t.num_args() == 2:
            joining(I, t.arg(0), t.arg(1))
        w.ok('what is taken is a line end', line_end(t))
        I.x.cover(I, 'taken')
        I.x.cover(I, 'ends normally')
    except SymRaise as e:
        raised(w, e, 'does not fail')
    except Mismatch:
        pass


BLANKS, LINE_END, SPACES = r'[ \t]*', r'\r?\n[ \t]*', r'\s*'


def blanks(t):
    return z3.Function('blanks', Str, Bool)(t)


def line_end(t):
    return z3.Function('line end', Str, Bool)(t)


def spaces(t):
    return z3.Function('white space', Str, Bool)(t)


def closed():
    """Followed by blanks, blanks stay blanks and line ends line ends."""
    return all(rxeq.difference(re.compile(x + BLANKS), 'fullmatch',
                               re.compile(x), 'fullmatch') is None
               for x in (BLANKS, LINE_END)) and rxeq.difference(
        re.compile(SPACES + SPACES), 'fullmatch', re.compile(SPACES),
        'fullmatch') is None


def joining(I, a, b):
    """... for these two texts"""
    t = z3.Concat(a, b)
    I.assume(z3.Implies(z3.And(blanks(a), blanks(b)), blanks(t)))
    I.assume(z3.Implies(z3.And(line_end(a), blanks(b)), line_end(t)))
    I.assume(z3.Implies(z3.And(spaces(a), spaces(b)), spaces(t)))


def white(I):
    """All white space at the end of the text is taken back."""
    w, n, israw, text, tail, prog, gen, base = take_back(
        I, 'unEmitWhitespace')
    st = {}

    def inv(I, fr, w):
        l, i = roles(I, fr, prog)
        got = joined(I, fr.env[l])
        t = I.term(fr.env[i], 'int')
        yield 'place', z3.And(t >= -1, t < n)
        yield 'text taken so far', got == tail(t + 1)
        yield 'white space only', spaces(got)
    rule = Back(w, prog, base, st, inv)
    I.x.rule = rule
    try:
        r = I.call(I.getattr(gen, 'unEmitWhitespace'), [])
        left, k = rest(I, w, gen, prog, n)
        t = I.term(r, 'str')
        w.ok('no text is lost', z3.Concat(left, t) == tail(k))
        if z3.is_app(t) and t.num_args() == 2:
            joining(I, t.arg(0), t.arg(1))
        w.ok('what is taken is white space', spaces(t))
        w.ok('no white space is left', z3.Or(left != strval(''), k == 0,
                                             z3.Not(israw(k - 1)), z3.Not(
                                                 spaces(text(k - 1)))))
        I.x.cover(I, 'taken')
        I.x.cover(I, 'ends normally')
    except SymRaise as e:
        raised(w, e, 'does not fail')
    except Mismatch:
        pass


PARTS = {
    'stacks': (stacks, 'TALGenerator', (
        'pushProgram', 'popProgram', 'pushSlots', 'popSlots', 'todoPush',
        'todoPop'), ()),
    'emitting': (emitting, 'TALGenerator', (
        'emit', 'emitStartTag', 'emitEndTag', 'emitRawText', 'emitText'),
        ()),
    'expressions': (compile_expression, 'TALGenerator', (
        'compileExpression',), ()),
    'defines': (emit_defines, 'TALGenerator', ('emitDefines',),
                ('define',)),
    'substitution': (parse_substitution, 'taldefs', ('parseSubstitution',),
                     ('substitution',)),
    'attributes': (parse_attributes, 'taldefs', (
        'parseAttributeReplacements',), ('attribute',)),
    'messages': (i18n_attributes, 'talgenerator', (
        '_parseI18nAttributes',), ()),
    'replace': (replace_attrs, 'TALGenerator', ('replaceAttrs',), ()),
    'line ends': (newline, 'TALGenerator', ('unEmitNewlineWhitespace',),
                  ('blanks', 'line end')),
    'white space': (white, 'TALGenerator', ('unEmitWhitespace',),
                    ('white space', 'white space at the end')),
}


def run(c, names, keep=None):
    from zope.tal import taldefs, talgenerator
    for name in names:
        entry, where, fns, among = PARTS[name]
        where = {'taldefs': taldefs, 'talgenerator': talgenerator,
                 'TALGenerator': talgenerator.TALGenerator}[where]
        try:
            x = HelpExplorer()
            x.among, x.strange, x.seen = among, [], set()
            x.rule = None
            rule = Rule(x)
            x.loops = [(rule.pick, rule)]
            x.max_seconds = 120
            x.run(judged(entry), name)
        except Exception as e:
            c.undecide('%s: %s: %s' % (name, type(e).__name__, e))
            continue
        if x.strange:
            strange(c, name, x, keep)
            continue
        for what in sorted(x.seen):
            c.obligation('%s: %s is taken apart as it should be' % (
                name, what), True, 'automata')
        c.explorer(x, name, keep, lambda n: 'loop invariant' in n)
        for f in fns:
            c.under_contract(getattr(where, f))
        if not x.obligations:
            c.undecide('%s: no obligations' % name)
        elif not x.covers.get('ends normally'):
            c.undecide('%s: no normal end' % name)
    c.assume('re: a match is what the pattern denotes; the languages and '
             'groups of the patterns in the source are compared with those of '
             'the contract (automata) where the pattern is used',
             'the expression compiler either answers or raises its '
             'compiler error')


def strange(c, name, x, keep=None):
    """A pattern that is none of those known: ask the code itself."""
    for pat, how in x.strange:
        left = [w for w in x.among if w not in x.seen]
        d = rxspec.differs(left[0], pat, how) if len(left) == 1 else False
        fn = DIRECT.get(name)
        if isinstance(d, str) and fn is not None and '\0' not in d:
            got, want = fn(d)
            if got != want and (
                    keep is None or keep('the value')
                    or keep('error') and 'error' in (got, want)):
                c.fail('%s: %r is taken for %r, not %r' % (
                    name, d, got, want), {'kind': 'syntax', 'part': name,
                                          'value': d})
                continue
        c.undecide('%s: %s of %r' % (name, how, pat.pattern))


def direct_substitution(d):
    from zope.tal import taldefs
    pat, how = rxspec.spec('substitution')
    m = getattr(pat, how)(d)
    try:
        return taldefs.parseSubstitution(d), (m.group(1) or 'text',
                                              m.group(2))
    except taldefs.TALError as e:
        return e.msg, (m.group(1) or 'text', m.group(2))


def direct_attributes(d):
    from zope.tal import taldefs
    pat, how = rxspec.spec('attribute')
    m = getattr(pat, how)(d)
    want = {m.group(1): m.group(2)} if m else 'error'
    try:
        return taldefs.parseAttributeReplacements(
            d.replace(';', ';;'), True), want
    except taldefs.TALError:
        return 'error', want


def direct_defines(d):
    from zope.tal import taldefs, talgenerator
    pat, how = rxspec.spec('define')
    m = getattr(pat, how)(d)
    g = talgenerator.TALGenerator()
    g.compileExpression = lambda e: ('compiled', e)
    g.program = []
    g.position = (1, 0)
    want = [('setGlobal' if m.group(1) == 'global' else 'setLocal',
             m.group(2), ('compiled', m.group(3)))] if m else 'error'
    try:
        g.emitDefines(d.replace(';', ';;'))
        return g.program, want
    except taldefs.TALError:
        return 'error', want


DIRECT = {'substitution': direct_substitution,
          'attributes': direct_attributes, 'defines': direct_defines}
