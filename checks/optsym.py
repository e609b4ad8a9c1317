"""Contracts of the code optimizer (C08) and of static attributes (C03).

A sequence of instructions is looked at in two ways:

* the text view drops opening and closing of variable scopes and joins
  neighbouring texts;
* the order view drops texts and position marks.

The optimized sequence must be equal to the original one in both views.  The
loops are cut by invariants: what has been put out so far, followed by the text
being collected, is equal in both views to the part of the program read so far.
"""
import ast

from pyvc.core import (ExcVal, HList, HObj, Int, PathEnd, Py, Ref, Sym,
                       SymRaise, SymSeq, Tup, Unsupported, strval, z3)
from pyvc.explore import Explorer
from checks.isym import ForRule, Mismatch, Opaque, Rule, judged

TEXTS = ('rawtext', 'endTag', 'startTag', 'startEndTag')
SCOPES = ('beginScope', 'endScope')


class Scene:
    """What the loop rules need of a World."""

    def __init__(self, I, name):
        self.I, self.name = I, name
        self.events = []

    def ok(self, what, cond=True):
        if not self.I.prove('%s: %s' % (self.name, what), cond):
            raise Mismatch(what)


def sequence(I, it):
    """(length, item at) of what a loop runs over, or None."""
    if not isinstance(it, Ref):
        return None
    c = I.cell(it)
    if isinstance(c, HObj) and c.cls is range:
        lo, hi, st = (c.fields[x] for x in ('lo', 'hi', 'step'))
        if isinstance(lo, Py) and lo.v == 0 and isinstance(st, Py) and \
                st.v >= 1:
            n = I.term(hi, 'int')
            if st.v == 1:
                return n, lambda k: Sym('int', k)
            return z3.simplify((n + st.v - 1) / st.v), lambda k: Sym(
                'int', z3.simplify(k * st.v))
        return None
    if isinstance(c, HObj) and c.cls is enumerate:
        s = sequence(I, c.fields['of'])
        if s is None:
            return None
        return s[0], lambda k: Tup((Sym('int', k), s[1](k)))
    if isinstance(c, HList) and c.base is not None and not c.items:
        return c.base.length, c.base.at
    if isinstance(c, HList) and c.base is not None and all(
            g is None for g, _ in c.items):
        def at(k):
            if I.branch(k < c.base.length):
                return c.base.at(k)
            j = z3.simplify(k - c.base.length)
            return I.index_sym([x for _, x in c.items], Sym('int', j))
        return c.base.length + len(c.items), at
    if isinstance(c, HObj) and isinstance(c.model, AttrList):
        return c.model.n, lambda k: c.model.getitem(I, it, Sym('int', k))
    return None


class Loop(ForRule):
    """The one loop of a function; step(I, fr) judges an iteration."""

    def __init__(self, w, forget, step, inv=None, writes=None):
        ForRule.__init__(self, w, forget,
                         lambda I, it: sequence(I, it)[0],
                         lambda I, it, k: sequence(I, it)[1](k),
                         inv=inv, writes=writes,
                         pred=lambda I, s, fr, it:
                         sequence(I, it) is not None)
        self.step = step

    def start_for(self, I, s, fr, it):
        self.stmt = s
        ForRule.start_for(self, I, s, fr, it)

    def again(self, I, fr, n0):
        for n, t in self.inv(I, fr, self.w):
            I.prove('loop invariant is kept: ' + n, t)
        try:
            self.step(I, fr)
        except Mismatch:
            pass
        raise PathEnd()


# ---------------------------------------------------------------- views
def text_view(I, w, items):
    """Alternating texts and instructions: [text, instr, text, ...]"""
    out = [[]]
    for kind, x in items:
        if kind == 'text':
            out[-1].append(x)
        else:
            out += [x, []]
    return [I.concat(x) if isinstance(x, list) and x else
            Py('') if isinstance(x, list) else x for x in out]


def same_view(I, w, what, a, b, same):
    va, vb = text_view(I, w, a), text_view(I, w, b)
    w.ok('no instruction is lost, added or reordered', len(va) == len(vb))
    for i, (x, y) in enumerate(zip(va, vb)):
        if i % 2:
            same(x, y)
        else:
            w.ok('text is the same ' + what, I.eq_term(x, y))


def opcode(I, it):
    """The opcode of an instruction if it is known."""
    op = it.items[0] if isinstance(it, Tup) and it.items else None
    return op.v if isinstance(op, Py) else None


def put_out(I, w, it):
    """Text view of an instruction of the output."""
    if not isinstance(it, Tup) or len(it.items) != 2:
        w.ok('instructions are pairs', False)
    op, arg = opcode(I, it), it.items[1]
    if op in ('rawtextOffset', 'rawtextColumn'):
        w.ok('text comes with its column', isinstance(arg, Tup)
             and len(arg.items) == 2)
        t, i = I.term(arg.items[0], 'str'), I.term(arg.items[1], 'int')
        n = z3.Length(t)
        nl = strval('\n')
        if op == 'rawtextOffset':
            w.ok('offset is the length of the text', i == n)
            w.ok('offset is for text without line break',
                 z3.Not(z3.Contains(t, nl)))
        else:
            w.ok('column follows the last line break', z3.And(
                i >= 0, i < n, z3.SubString(t, n - i - 1, 1) == nl))
            w.ok('no line break within the column', z3.Not(
                z3.Contains(z3.SubString(t, n - i, i), nl)))
        return [('text', arg.items[0])]
    if op in SCOPES:
        return []
    return [('instr', it)]


# -------------------------------------------------------------- optimize
def instruction(I, w):
    """An arbitrary instruction of the generator."""
    k = I.decide(9)
    if k == 0:
        return Tup((Py('rawtext'), I.fstr('text')))
    if k == 1:
        return Tup((Py('endTag'), I.fstr('name')))
    if k in (2, 3):
        return Tup((Py(TEXTS[k]), I.fstr('name'), I.fobj('attrlist')))
    if k == 4:
        return Tup((Py('beginScope'), I.fobj('attrs')))
    if k == 5:
        return Tup((Py('endScope'),))
    if k == 6:
        return Tup((Py('noop'),))
    op = I.fstr('opcode')
    for x in TEXTS + SCOPES + ('noop', 'rawtextOffset', 'rawtextColumn'):
        I.assume(op.t != strval(x))
    n = 1 if k == 8 else I.decide(6)
    return Tup((op,) + tuple(I.fobj('arg') for _ in range(n)))


def optimize(I):
    from zope.tal.talgenerator import TALGenerator
    w = Scene(I, 'optimize')
    n = I.fint('length')
    I.assume(n.t >= 0)
    memo = {}

    def at(i):
        k = str(z3.simplify(i))
        if k not in memo:
            memo[k] = instruction(I, w)
            w.item = memo[k]
        return memo[k]
    prog = I.alloc(HList(base=SymSeq('program', n.t, at), frozen=True))
    xml = I.fbool('xml')
    gen = I.new_obj(TALGenerator, {'xml': xml})
    w.item, w.tag, w.tagcall, w.triple = None, None, None, None

    def c_tag(I, self, collect, name, attrlist, end):
        it = w.item
        w.ok('tag is the one at hand', w.tagcall is None and it is not None
             and I.same(it.items[1], name) and I.same(it.items[2], attrlist))
        want = Py('>')
        if opcode(I, it) == 'startEndTag':
            want = Sym('str', z3.If(I.term(xml, 'bool'), strval('/>'),
                                    strval(' />')), str)
        w.ok('end of the tag', I.eq_term(end, want))
        w.tagcall = True
        if I.decide(2):
            return Py(0)
        w.tag = I.fstr('tagtext')
        I.list_method(collect, 'append', [w.tag], {})
        return Py(1)

    def c_triple(I, self, program):
        w.ok('called once', w.triple is None)
        w.triple = program
        w.result = I.fobj('result')
        return w.result
    I.x.contracts[TALGenerator.optimizeStartTag] = c_tag
    I.x.contracts[TALGenerator.optimizeCommonTriple] = c_triple
    st = {}

    def roles(I, fr):
        """(output variable, variable of the text being collected)"""
        names = [v for v, x in fr.env.items() if isinstance(x, Ref)
                 and isinstance(I.cell(x), HList) and x != prog]
        joined = joined_names(rule.stmt)
        text = [v for v in names if v in joined]
        out = [v for v in names if v not in joined]
        if len(text) != 1 or len(out) != 1:
            raise Unsupported('lists of the optimizer')
        return out[0], text[0]

    def before(I, fr, w):
        o, t = st['roles'] = roles(I, fr)
        w.ok('starts with nothing', not any(
            I.cell(fr.env[v]).items or I.cell(fr.env[v]).base is not None
            for v in (o, t)))
        st['refs'] = fr.env[o], fr.env[t]

    def forget(I, fr, w):
        o, t = st['roles']
        fr.env[o], fr.env[t] = st['refs']
        m = I.fint('nout')
        I.assume(m.t >= 0)
        st['base'] = SymSeq('output', m.t, lambda k: I.fobj('done'))
        I.cell(fr.env[o]).base = st['base']
        st['so'] = I.fstr('sofar')
        I.cell(fr.env[t]).items = [(None, st['so'])]
        st['addrs'] = [fr.env[o].addr, fr.env[t].addr]
        st['out'] = fr.env[o]

    def collected(I, fr):
        o, t = roles(I, fr)
        items = I.cell(fr.env[t]).items
        return I.concat([x for _, x in items]) if items else Py('')

    def inv(I, fr, w):
        if 'base' in st:
            yield 'all text is put out at the end', z3.Implies(
                rule.k > n.t, eq_bool(I, collected(I, fr), Py('')))

    def step(I, fr):
        o, t = roles(I, fr)
        out = I.cell(fr.env[o])
        w.ok('what was put out stays', fr.env[o] == st['out']
             and out.base is st['base'])
        new = [x for _, x in out.items]
        it = w.item
        a = [('text', st['so'])]
        scopes = []
        if it is not None:
            op = opcode(I, it)
            if op == 'rawtext':
                a.append(('text', it.items[1]))
            elif op == 'endTag':
                a.append(('text', I.concat([Py('</'), it.items[1],
                                            Py('>')])))
            elif op in TEXTS and w.tag is not None:
                a.append(('text', w.tag))
            elif op == 'noop':
                pass
            elif op in SCOPES:
                scopes.append(it)
            else:
                a.append(('instr', it))
            I.x.cover(I, 'instruction %s' % (op or 'of another kind'))
        else:
            I.x.cover(I, 'end of the program')
        b = [y for x in new for y in put_out(I, w, x)]
        b.append(('text', collected(I, fr)))
        same_view(I, w, 'and in the same place', a, b,
                  lambda x, y: same_instr(I, w, x, y))
        # order view: the instruction itself, and nothing else
        got = [x for x in new if opcode(I, x) not in
               ('rawtextOffset', 'rawtextColumn')]
        want = scopes + [x for k, x in a if k == 'instr']
        w.ok('scope instructions keep their order', len(got) == len(want))
        for x, y in zip(want, got):
            same_instr(I, w, x, y)
    rule = Loop(w, forget, step, inv,
                writes=lambda I, w: [('list', a) for a in st['addrs']])
    rule.before = before
    I.x.rule = rule
    try:
        r = I.call(I.getattr(gen, 'optimize'), [prog])
        I.x.cover(I, 'ends normally')
        w.ok('the result is finished by the second pass', w.triple is not None
             and I.same(r, w.result))
        c = I.cell(w.triple)
        w.ok('second pass gets what was put out', w.triple == st['out']
             and c.base is st['base'] and not c.items)
        w.ok('no text is left over', eq_bool(I, st['so'], Py('')))
    except SymRaise as e:
        w.ok('does not fail (%s)' % (e.exc.cls and e.exc.cls.__name__), False)
    except Mismatch:
        pass


def same_instr(I, w, x, y):
    """y is the final form of instruction x."""
    w.ok('opcode', I.eq_term(x.items[0], y.items[0]))
    if len(x.items) == 2:
        w.ok('argument', I.same(x.items[1], y.items[1]))
    else:
        w.ok('arguments', isinstance(y.items[1], Tup)
             and len(y.items[1].items) == len(x.items) - 1
             and all(I.same(p, q) for p, q in zip(x.items[1:],
                                                  y.items[1].items)))


def joined_names(s):
    """Names of lists a loop joins."""
    return {a.id for n in ast.walk(s) if isinstance(n, ast.Call)
            and getattr(n.func, 'attr', getattr(n.func, 'id', '')).endswith(
                'join')
            for a in n.args if isinstance(a, ast.Name)}


# ------------------------------------------------------------- second pass
def piece(I, kind, like=True):
    """An instruction of this kind, or (not like) of another one."""
    if not like:
        op = I.fstr('opcode')
        I.assume(op.t != strval(kind))
        return Tup((op, I.fobj('arg')))
    if kind == 'rawtextColumn':
        return Tup((Py(kind), Tup((I.fstr('text'), I.fint('column')))))
    return Tup((Py(kind), I.fobj('arg')))


# what matters of the instruction at hand and of the three before it
KINDS = ('endScope', 'rawtextColumn', 'setPosition', 'beginScope')


def meaning(I, w, x):
    """(text view, order view) of an instruction."""
    op = opcode(I, x)
    if op == 'rawtextBeginScope':
        a = x.items[1]
        w.ok('parts of a combined instruction', isinstance(a, Tup)
             and len(a.items) == 5)
        text, col, pos, close, attrs = a.items
        w.ok('scope flag', isinstance(close, Py))
        order = [('endScope', None)] if close.v else []
        return ([('col', text, col), ('pos', pos)],
                order + [('beginScope', attrs)])
    if op == 'rawtextColumn':
        return [('col', x.items[1].items[0], x.items[1].items[1])], []
    if op == 'setPosition':
        return [('pos', x.items[1])], []
    if op == 'beginScope':
        return [], [('beginScope', x.items[1])]
    if op == 'endScope':
        return [], [('endScope', None)]
    return [('instr', x)], [('instr', x)]


def same_meaning(I, w, a, b):
    for which, name in ((0, 'text and position marks'),
                        (1, 'order of instructions')):
        x = [m for i in a for m in meaning(I, w, i)[which]]
        y = [m for i in b for m in meaning(I, w, i)[which]]
        w.ok(name, len(x) == len(y) and all(
            p[0] == q[0] and all(
                u is v or u is not None and v is not None and I.same(u, v)
                for u, v in zip(p[1:], q[1:])) for p, q in zip(x, y)))


def triple(I):
    """The second pass: any program of final instructions."""
    from zope.tal.talgenerator import TALGenerator
    w = Scene(I, 'optimizeCommonTriple')
    gen = I.new_obj(TALGenerator, {'xml': I.fbool('xml')})
    n = I.fint('length')
    I.assume(n.t >= 0)
    memo = {}

    def at(i):
        k = str(z3.simplify(i))
        if k not in memo:
            memo[k] = piece(I, 'beginScope', I.decide(2)) if 'out' in st \
                else Tup((I.fstr('opcode'), I.fobj('arg')))
        return memo[k]
    base = SymSeq('program', n.t, at)
    prog = I.alloc(HList(base=base))
    st = {}

    def lists(I, fr):
        return [(v, x) for v, x in fr.env.items() if isinstance(x, Ref)
                and isinstance(I.cell(x), HList) and x != prog]

    def forget(I, fr, w):
        ls = lists(I, fr)
        if len(ls) != 1:
            raise Unsupported('lists of the second pass')
        st['out'] = ls[0][1]
        c = I.cell(st['out'])
        short = I.decide(2)
        k = 2 if short else 3
        st['old'] = [piece(I, x, I.decide(2)) for x in KINDS[3 - k:3]]
        c.items = [(None, x) for x in st['old']]
        m = I.fint('nout')
        I.assume(m.t >= 0)
        st['base'] = c.base = None if short else SymSeq(
            'output', m.t, lambda i: I.fobj('done'))
        fr.env['prev1'] = st['old'][-1]
        fr.env['prev2'] = st['old'][-2] if I.decide(2) else piece(
            I, 'rawtextColumn', False)

    def inv(I, fr, w):
        if 'out' not in st:
            return
        for v in ('prev1', 'prev2'):
            if v not in fr.env:
                raise Unsupported('no variable ' + v)
        out = [x for _, x in I.cell(st['out']).items]
        yield 'last instruction is remembered', bool(out) and (
            fr.env['prev1'] is out[-1] or I.same(fr.env['prev1'], out[-1]))
        p2 = fr.env['prev2']
        yield 'last but one is remembered', (
            len(out) > 1 and I.same(p2, out[-2])) or (
            isinstance(p2, Tup) and opcode(I, p2) != 'rawtextColumn'
            and not I.feasible(eq_bool(I, p2.items[0], Py('rawtextColumn'))))

    def step(I, fr):
        c = I.cell(st['out'])
        w.ok('what was put out stays', c.base is st['base']
             and len(lists(I, fr)) == 1 and lists(I, fr)[0][1] == st['out'])
        new = [x for _, x in c.items]
        same_meaning(I, w, st['old'] + [rule.cur], new)
        if any(opcode(I, x) == 'rawtextBeginScope' for x in new):
            I.x.cover(I, 'instructions are combined')
            if len(new) < len(st['old']) - 1:
                I.x.cover(I, 'with the end of the previous scope')

    class Pass2(Loop):
        def start_for(self, I, s, fr, it):
            ls = lists(I, fr)
            if len(ls) == 1 and 'out' not in st:
                c = I.cell(ls[0][1])
                n1, at1 = whole(I, c)
                n2, at2 = sequence(I, it)
                w.ok('first part and the rest are the program',
                     z3.And(n1 == 2, n1 + n2 == n.t))
                w.ok('first part is put out', I.same(at1(0), at(
                    z3.IntVal(0))) and I.same(at1(1), at(z3.IntVal(1))))
                k = I.fresh('k', Int)
                I.assume(z3.And(k >= 0, k < n2))
                w.ok('the rest follows', I.same(at2(k), at(k + 2)))
            Loop.start_for(self, I, s, fr, it)
    rule = Pass2(w, forget, step, inv,
                 writes=lambda I, w: [('list', st['out'].addr)])
    I.x.rule = rule
    try:
        r = I.call(I.getattr(gen, 'optimizeCommonTriple'), [prog])
        if st:
            I.x.cover(I, 'ends normally')
            w.ok('result is what was put out', r == st['out'])
        else:
            I.x.cover(I, 'short program')
            w.ok('a short program stays as it is', r == prog
                 and I.cell(r).base is base and not I.cell(r).items)
    except SymRaise as e:
        w.ok('does not fail (%s)' % (e.exc.cls and e.exc.cls.__name__), False)
    except Mismatch:
        pass


def whole(I, c):
    """(length, at) of a list with base and items."""
    items = [x for _, x in c.items]
    if c.base is None:
        return z3.IntVal(len(items)), lambda i: items[i]
    if items:
        raise Unsupported('first part')
    return c.base.length, lambda i: c.base.at(z3.IntVal(i))


# ------------------------------------------------------------- start tags
class AttrList(Opaque):
    """A start tag's attributes; entries may be replaced."""

    name = 'attrlist'

    def __init__(self, w, n, at):
        self.w, self.n, self.at = w, n, at
        self.sets = []

    def length(self, I, o):
        return Sym('int', self.n)

    def truth(self, I, o):
        return self.n > 0

    def getitem(self, I, o, k):
        i = I.term(k, 'int')
        for j, v in reversed(self.sets):
            if I.branch(i == j):
                return v
        if not I.branch(z3.And(i >= 0, i < self.n)):
            raise SymRaise(ExcVal(IndexError))
        return self.at(i)

    def setitem(self, I, o, k, v):
        I.note_write(('attrlist', o.addr))
        self.sets.append((I.term(k, 'int'), v))


def start_tag(I):
    """optimizeStartTag: plain text if everything is static."""
    from zope.tal import taldefs
    from zope.tal.talgenerator import TALGenerator
    w = Scene(I, 'optimizeStartTag')
    gen = I.new_obj(TALGenerator, {'xml': I.fbool('xml')})
    n = I.fint('nattrs')
    I.assume(n.t >= 0)
    esc = z3.Function('attrEscape', z3.StringSort(), z3.StringSort())
    I.x.contracts[taldefs.attrEscape] = lambda I, s: Sym(
        'str', esc(I.term(s, 'str')), str)
    memo = {}

    def at(i):
        k = str(z3.simplify(i))
        if k not in memo:
            memo[k] = attribute(I)
            w.entry = memo[k]
        return memo[k]
    w.entry = None
    model = AttrList(w, n.t, at)
    attrs = I.alloc(HObj(list, {}, model=model))
    name, end = I.fstr('name'), I.fstr('end')
    col = I.alloc(HList(base=SymSeq('collect', I.fint('nc').t,
                                    lambda k: I.fstr('c'))))
    colbase = I.cell(col).base
    st = {}

    def parts(I, fr):
        ls = [x for v, x in fr.env.items() if isinstance(x, Ref)
              and isinstance(I.cell(x), HList) and x != col]
        if len(ls) != 1:
            raise Unsupported('lists of the tag')
        return ls[0]

    def flag(fr):
        names = [v for v, x in fr.env.items() if isinstance(x, Py)
                 and isinstance(x.v, (int, bool)) or isinstance(x, Sym)
                 and x.kind in ('int', 'bool')]
        got = [v for v in names if v in rule.names]
        if len(got) != 1:
            raise Unsupported('flag of the tag')
        return got[0]

    def forget(I, fr, w):
        l = parts(I, fr)
        st['head'] = I.concat([x for _, x in I.cell(l).items])
        st['so'] = I.fstr('sofar')
        I.cell(l).items = [(None, st['so'])]
        st['list'] = l
        model.sets = []
        w.entry = None

    def step(I, fr):
        it = w.entry
        w.ok('one attribute is looked at', it is not None)
        items = [x for _, x in I.cell(st['list']).items]
        w.ok('text so far stays', bool(items) and items[0] is st['so']
             and parts(I, fr) == st['list'])
        sets = model.sets
        w.ok('only this attribute is replaced', len(sets) <= 1 and all(
            z3.is_true(z3.simplify(j == rule.k - 1)) for j, v in sets))
        dyn = len(it.items) > 2
        f = I.truth(fr.env[st['flag']])
        f = z3.BoolVal(f) if isinstance(f, bool) else f
        if dyn:
            I.x.cover(I, 'dynamic attribute')
            w.ok('a dynamic attribute keeps the tag an instruction',
                 z3.Not(f))
            if sets:
                v = sets[0][1]
                w.ok('a dynamic attribute stays as it is', isinstance(v, Tup)
                     and len(v.items) == len(it.items) and all(
                         I.same(p, q) for p, q in zip(v.items, it.items)))
            return
        I.x.cover(I, 'static attribute')
        w.ok('a static attribute does not make the tag an instruction',
             f == st['flag0'])
        val = it.items[1]
        if isinstance(val, Py):
            want = it.items[0]
        else:
            want = I.concat([it.items[0], Py('="'), Sym(
                'str', esc(val.t), str), Py('"')])
        w.ok('static attribute is rendered', len(sets) == 1)
        v = sets[0][1]
        w.ok('rendered attribute: name', isinstance(v, Tup)
             and len(v.items) == 2 and I.same(v.items[0], it.items[0]))
        w.ok('rendered attribute: text is the escaped value',
             I.eq_term(v.items[1], want))
        text = I.concat(items[1:]) if items[1:] else Py('')
        w.ok('text of the tag: attribute follows a blank',
             I.eq_term(text, I.concat([Py(' '), want])))

    class Tag(Loop):
        def start_for(self, I, s, fr, it):
            self.names = {x.id for x in ast.walk(s)
                          if isinstance(x, ast.Name)
                          and isinstance(x.ctx, ast.Store)
                          and isinstance(fr.env.get(x.id), (Py, Sym))}
            self.names &= {v for v, x in fr.env.items()
                           if isinstance(x, Py) and isinstance(x.v, int)}
            w.ok('every attribute is looked at', sequence(I, it)[0] == n.t)
            fl = flag(fr)
            w.ok('plain text unless shown otherwise', I.truth(fr.env[fl]))
            Loop.start_for(self, I, s, fr, it)
            st['flag'] = fl
            b = I.fresh('flag', z3.BoolSort())
            fr.env[fl] = Sym('bool', b)
            st['flag0'] = b
    rule = Tag(w, forget, step, None,
               writes=lambda I, w: [('list', st['list'].addr),
                                    ('attrlist', attrs.addr)])
    I.x.rule = rule
    try:
        r = I.call(I.getattr(gen, 'optimizeStartTag'),
                   [col, name, attrs, end])
        I.x.cover(I, 'ends normally')
        c = I.cell(col)
        w.ok('collected text stays', c.base is colbase)
        new = [x for _, x in c.items]
        if not st:
            w.ok('a tag without attributes is plain text', z3.And(
                n.t == 0, as_bool(I.truth(r))))
            w.ok('text of the tag', I.eq_term(I.concat(new) if new else
                                              Py(''), I.concat(
                [Py('<'), name, end])))
            return
        w.ok('tag starts with its name', I.eq_term(
            st['head'], I.concat([Py('<'), name])))
        f = as_bool(I.truth(r))
        w.ok('plain text exactly if everything is static', f == st['flag0'])
        if I.branch(f):
            w.ok('text of the tag', I.eq_term(
                I.concat(new) if new else Py(''),
                I.concat([st['so'], end])))
        else:
            w.ok('nothing is collected', not new)
    except SymRaise as e:
        w.ok('does not fail (%s)' % (e.exc.cls and e.exc.cls.__name__), False)
    except Mismatch:
        pass


def attribute(I):
    k = I.decide(4)
    name = I.fstr('attr')
    if k == 0:
        return Tup((name, Py(None)))
    if k == 1:
        return Tup((name, I.fstr('value')))
    rest = (I.fstr('action'),)
    if k == 3:
        rest += (I.fobj('expr'), I.fobj('xlat'), I.fobj('msgid'))
    return Tup((name, I.fobj('value')) + rest)


def as_bool(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


PARTS = {
    'optimize': optimize,
    'optimizeCommonTriple': triple,
    'optimizeStartTag': start_tag,
}


def run(c, names, keep=None):
    from zope.tal.talgenerator import TALGenerator
    for name in names:
        try:
            x = Explorer()
            x.rule = None
            x.exact_rfind = True
            rule = Rule(x)
            x.loops = [(rule.pick, rule)]
            x.max_seconds = 120
            x.run(judged(PARTS[name]), name)
        except Exception as e:
            c.undecide('%s: %s: %s' % (name, type(e).__name__, e))
            continue
        c.explorer(x, name, keep, lambda n: 'is remembered' in n)
        c.under_contract(getattr(TALGenerator, name, name))
        if not x.obligations:
            c.undecide('%s: no obligations' % name)
        elif not x.covers.get('ends normally'):
            c.undecide('%s: no normal end' % name)
    c.assume('instructions other than rawtext, scope and position marks are '
             'opaque to the optimizer: their arguments stand for themselves')


def eq_bool(I, a, b):
    return as_bool(I.eq_term(a, b))
