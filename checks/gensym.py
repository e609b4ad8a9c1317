"""Contract of the compilation of one element.

emitStartElement, the compilation of the element's content, and emitEndElement
are executed in one go, in guarded mode, for an element with any combination of
directives with any values: the result is one list of guarded events (programs
begun and ended, instructions emitted) and the guarded errors.  What the
properties say about the compiled form are statements about this list.

The content is assumed to leave the state of the generator as it was; that the
element does so too is proved here (induction over the nesting of elements).
"""
import time

from pyvc.core import (ExcVal, HDict, HObj, Method, Obj, Obligation, Py, Ref,
                       Sym, Tup, Union, Unsupported, conj, strval, z3)
from pyvc.explore import Explorer, MatchModel
from checks import rxspec

Str, Bool = z3.StringSort(), z3.BoolSort()

TAL = ('define', 'condition', 'content', 'replace', 'repeat', 'attributes',
       'on-error', 'omit-tag', 'script', 'tal tag')
METAL = ('define-macro', 'extend-macro', 'use-macro', 'define-slot',
         'fill-slot')
I18N = ('translate', 'domain', 'target', 'source', 'attributes', 'data',
        'name', 'ignore', 'ignore-attributes')
KNOWN = {'tal': TAL, 'metal': METAL, 'i18n': I18N}


class Event:
    def __init__(self, i, guard, kind, args=(), val=None):
        self.i, self.g, self.kind = i, guard, kind
        self.args, self.val = args, val

    def __repr__(self):
        return '%s%r' % (self.kind, self.args)


class Program:
    """A finished program."""

    def __init__(self, w, event):
        self.w, self.event = w, event
        self.full = w.I.fresh('nonempty', Bool)
        self.last = Tup((w.I.fstr('lastop'), w.I.fobj('args')))

    def getattr(self, I, o, name):
        return None

    def truth(self, I, o):
        return self.full

    def getitem(self, I, o, k):
        if not (isinstance(k, Py) and k.v == -1):
            raise Unsupported('item of a program')
        return self.last

    def setitem(self, I, o, k, v):
        self.w.note('minimise', o)


class Attrs:
    """The plain attributes of the element."""

    def getattr(self, I, o, name):
        return None

    def to_list(self, I, o):
        return I.fobj('copy of attributes')


class Replacements:
    """Attributes given by tal:attributes: name -> expression, then
    name -> (compiled expression, translate, message id)."""

    def __init__(self, w, name):
        self.w, self.name = w, name
        self.state = 'parsed'
        self.has = z3.Function('has ' + name, Str, Bool)
        self.val = z3.Function('value ' + name, Str, Str)
        self.some = w.I.fresh('some ' + name, Bool)

    def getattr(self, I, o, name):
        return Method(name, o)

    def truth(self, I, o):
        return self.some

    def contains(self, I, o, k):
        t = I.term(k, 'str')
        I.assume(z3.Implies(self.has(t), self.some))
        return Sym('bool', self.has(t))

    def setitem(self, I, o, k, v):
        self.w.sets.append((self, conj(*I.mask), k, v))

    def call(self, I, o, name, args, kw):
        if name == 'items':
            return I.alloc(HObj(None, {'of': o, 'items': Py(True)}))
        if name == 'get':
            return self.get(I, args[0])
        raise Unsupported('attributes.' + name)


class Messages(Replacements):
    """i18n:attributes: name -> message id or None."""

    def __init__(self, w, name):
        Replacements.__init__(self, w, name)
        self.expl = z3.Function('explicit ' + name, Str, Bool)

    def get(self, I, k):
        t = I.term(k, 'str')
        g = z3.And(self.has(t), self.expl(t))
        I.assume(z3.Implies(g, self.val(t) != strval('')))
        I.assume(z3.Implies(self.has(t), self.some))
        return Union([(g, Sym('str', self.val(t), str)),
                      (z3.Not(g), Py(None))])


class GenExplorer(Explorer):
    def __init__(self):
        Explorer.__init__(self)
        self.patterns = []

    def re_match(self, I, pat, name, s):
        t = I.term(s, 'str')
        stripped = z3.is_app(t) and t.decl().name() == 'strip'
        what = rxspec.recognise(pat, name, stripped, (
            'name', 'name at the beginning', 'repeat'))
        self.patterns.append((pat, name, t, what))
        m = I.alloc(HObj(None, {}, model=MatchModel(pat, name, t)))
        if what == 'name':
            ok = pred('is name', t)
        elif what == 'name at the beginning':
            ok = I.fresh('starts like a name', Bool)
            g = I.term(I.cell(m).model.group(I, 0), 'str')
            I.assume(z3.And(ok, g == t) == pred('is name', t))
        elif what:
            return Explorer.re_match(self, I, *rxspec.spec(what), s)
        else:
            return Explorer.re_match(self, I, pat, name, s)
        return Union([(ok, m), (z3.Not(ok), Py(None))])

    def sorted_model(self, I, v, c):
        if isinstance(c, HObj) and (isinstance(c.model, Replacements)
                                    or 'of' in c.fields):
            return v
        return None


class Scene:
    def __init__(self, I):
        self.I = I
        self.events = []
        self.lifted, self.iterations, self.sets = {}, [], []

    def note(self, kind, *args, val=None):
        e = Event(len(self.events), conj(*self.I.mask), kind, args, val)
        self.events.append(e)
        return e

    def fault(self, ok, cls):
        """Contract: fails with an error of this class unless ok."""
        I = self.I
        I.if_guarded(z3.simplify(z3.Not(ok)), lambda: I.do_raise(ExcVal(cls)))


def compiles(s):
    return z3.Function('compiles', Str, Bool)(s)


def compiled(s):
    return z3.Function('compiled', Str, Obj)(s)


def pred(name, s):
    return z3.Function(name, Str, Bool)(s)


def contracts(I, w):
    """Contracts of what the compilation of an element uses."""
    from zope.tal import talgenerator, taldefs
    G = talgenerator.TALGenerator
    ct = I.x.contracts

    def push(I, self):
        w.note('push')
        return Py(None)

    def pop(I, self):
        e = w.note('pop')
        e.val = I.alloc(HObj(list, {}, model=Program(w, e)))
        return e.val

    def emit(I, self, instruction):
        w.note('emit', *instruction.items)
        return Py(None)

    def push_slots(I, self):
        w.note('pushSlots')
        return Py(None)

    def pop_slots(I, self):
        e = w.note('popSlots')
        e.val = I.fobj('slots')
        return e.val

    def compile_(I, self, expr):
        s = I.term(expr, 'str')
        w.fault(compiles(s), taldefs.TALError)
        return Sym('obj', compiled(s))

    def defines(I, self, defines):
        s = I.term(defines, 'str')
        w.fault(pred('defines are right', s), taldefs.TALError)
        w.note('emit', Py('defines'), defines)
        return Py(None)

    def subst(I, arg, position):
        s = I.term(arg, 'str')
        f = pred('is structure', s)
        key = Union([(f, Py('structure')), (z3.Not(f), Py('text'))])
        return Tup((key, Sym('str', z3.Function('subst expr', Str, Str)(s),
                             str)))

    def replacements(I, arg, xml):
        w.fault(pred('attributes are right', I.term(arg, 'str')),
                taldefs.TALError)
        w.repl = Replacements(w, 'tal:attributes')
        w.repl_ref = I.alloc(HObj(dict, {}, model=w.repl))
        return w.repl_ref

    def messages(I, i18nattrs, position, xml):
        w.fault(pred('i18n attributes are right', I.term(i18nattrs, 'str')),
                taldefs.TALError)
        w.msgs = Messages(w, 'i18n:attributes')
        w.msgs_ref = I.alloc(HObj(dict, {}, model=w.msgs))
        return w.msgs_ref

    def replace(I, self, attrlist, repldict):
        return Tup((Py('replaced'), attrlist, repldict))

    def take_back(I, self):
        e = w.note('takeback')
        g = I.fresh('newline', Bool)
        e.val = Union([(g, I.fstr('whitespace')), (z3.Not(g), Py(None))])
        return e.val

    def end_tag(I, self, name):
        w.note('emit', Py('endTag'), name)
        return Py(None)

    def text(I, self, text):
        w.note('emit', Py('rawtext'), text)
        return Py(None)
    for n, f in (('pushProgram', push), ('popProgram', pop), ('emit', emit),
                 ('pushSlots', push_slots), ('popSlots', pop_slots),
                 ('compileExpression', compile_), ('emitDefines', defines),
                 ('replaceAttrs', replace), ('emitEndTag', end_tag),
                 ('unEmitNewlineWhitespace', take_back), ('emitText', text)):
        ct[getattr(G, n)] = f
    ct[taldefs.parseSubstitution] = subst
    ct[taldefs.parseAttributeReplacements] = replacements
    ct[talgenerator._parseI18nAttributes] = messages


class Names:
    """The macros or slots defined so far."""

    def __init__(self, w, name):
        self.w, self.name = w, name

    def getattr(self, I, o, name):
        return None

    def contains(self, I, o, k):
        return Sym('bool', pred('already ' + self.name, I.term(k, 'str')))

    def setitem(self, I, o, k, v):
        self.w.note('set ' + self.name, k, v)


def setup(I):
    from zope.tal.talgenerator import TALGenerator
    from zope.tal.translationcontext import TranslationContext
    w = Scene(I)
    I.simt = True
    w.has, w.val, w.dicts = {}, {}, {}
    for ns, keys in KNOWN.items():
        es = []
        for k in keys + (None,):
            g = I.fresh('%s:%s' % (ns, k or 'OTHER'), Bool)
            v = I.fstr('%s:%s value' % (ns, k or 'OTHER'))
            key = Py(k)
            if k is None:
                key = I.fstr('%s other' % ns)
                key = Sym('str', key.t, str, {'differs': keys})
            es.append([g, key, v])
            w.has[ns, k], w.val[ns, k] = g, v
        w.dicts[ns] = I.alloc(HDict(es))
    contracts(I, w)
    top = I.fresh('outermost context', Bool)
    outer = I.new_obj(TranslationContext, {})

    def maybe(name):
        g = I.fresh('has ' + name, Bool)
        v = I.fstr(name)
        return Union([(g, v), (z3.Not(g), Py(None))])
    w.ctx = I.new_obj(TranslationContext, {
        'domain': I.fstr('domain'), 'source': maybe('source'),
        'target': maybe('target'),
        'parent': Union([(top, Py(None)), (z3.Not(top), outer)])})
    w.top = top
    use = I.fresh('inMacroUse', Bool)
    w.use = use
    w.level, w.defs = I.fint('i18nLevel'), I.fint('inMacroDef')
    I.assume(z3.And(w.level.t >= 0, w.defs.t >= 0))
    w.src = maybe('source_file')
    w.isend = I.fresh('isend', Bool)
    w.implied = I.fint('implied')
    w.nopos = I.fresh('no position', Bool)
    w.pos0 = Tup((I.fint('line'), I.fint('offset')))
    w.pos = Union([(w.nopos, Tup((Py(None), Py(None)))),
                   (z3.Not(w.nopos), w.pos0)])
    # the end: where, and whether there is no end tag
    noend = I.fresh('no end position', Bool)
    w.endpos = Union([(noend, Tup((Py(None), Py(None)))),
                      (z3.Not(noend), Tup((I.fint('end line'),
                                           I.fint('end offset'))))])
    w.void = I.fresh('void', Bool)
    w.attrs = I.alloc(HObj(list, {}, model=Attrs()))
    w.name = I.fstr('name')
    w.use0 = Sym('int', z3.If(use, z3.IntVal(1), z3.IntVal(0)))
    w.gen = I.new_obj(TALGenerator, {
        'xml': I.fbool('xml'), 'inMacroUse': w.use0,
        'inMacroDef': w.defs, 'i18nLevel': w.level, 'i18nContext': w.ctx,
        'source_file': w.src, 'todoStack': I.new_list(),
        # of an element before; elements without statements do not read it
        'position': Tup((I.fint('old line'), I.fint('old offset'))),
        'macros': I.alloc(HObj(dict, {}, model=Names(w, 'macro'))),
        'slots': I.alloc(HObj(dict, {}, model=Names(w, 'slot')))})
    return w


class AttrLoop:
    """Collecting the attributes for the scope; converting replacements."""

    def __init__(self, w):
        self.w = w

    def pick(self, I, s, fr, it):
        if not isinstance(it, Ref):
            return False
        c = I.cell(it)
        return isinstance(c, HObj) and (
            isinstance(c.model, (Attrs, Replacements)) or 'of' in c.fields)

    def run_for(self, I, s, fr, it):
        w = self.w
        c = I.cell(it)
        n = len(w.events)
        if isinstance(c.model, Attrs):
            item = Tup((I.fstr('attr'), I.fobj('attr value')))
            I.one_round(s, fr, I.fresh('some attr', Bool), item)
            if len(w.events) != n:
                raise Unsupported('attribute loop emits instructions')
            return
        of = c.fields.get('of', it)
        m = I.cell(of).model
        k = I.fstr('key')
        item = k if 'of' not in c.fields else Tup(
            (k, Sym('str', m.val(k.t), str)))
        here = conj(*I.mask)
        nesc = len(I.escapes)
        sets = w.sets = []
        old = I.watch

        def watch(loc):
            if loc[0] != 'var':
                sets.append(loc)
            if old is not None:
                old(loc)
        I.watch = watch
        g = z3.And(m.some, m.has(k.t))
        try:
            I.one_round(s, fr, g, item)
        finally:
            I.watch = old
        if len(w.events) != n:
            raise Unsupported('attribute loop emits instructions')
        new, I.escapes[nesc:] = I.escapes[nesc:], []
        del I.escape_pcs[nesc:]
        lifted = w.lifted[m.name] = {}
        for t, exc in new:
            if exc.cls not in lifted:
                lifted[exc.cls] = [I.fresh('some attribute fails', Bool), []]
            lifted[exc.cls][1].append(t)
        for cls, (e, ts) in lifted.items():
            I.escapes.append((conj(here, e), ExcVal(cls)))
            I.escape_pcs.append(len(I.pc))
            I._kill(z3.Not(e))
        w.iterations.append((here, g, m, k, lifted, list(sets)))


def element(I):
    w = setup(I)
    loop = AttrLoop(w)
    I.x.loops[:] = [(loop.pick, loop)]
    I.call(I.getattr(w.gen, 'emitStartElement'),
           [w.name, w.attrs, w.dicts['tal'], w.dicts['metal'],
            w.dicts['i18n'], w.pos, Sym('bool', w.isend)])

    def rest():
        w.note('children')
        I.call(I.getattr(w.gen, 'emitEndElement'), [w.name],
               {'isend': Sym('bool', w.void), 'implied': w.implied,
                'position': w.endpos})
    I.guarded(z3.Not(w.isend), rest)
    return w



class Fast:
    """Proofs that need no more than propositional reasoning:
    everything else is replaced by propositional variables."""

    def __init__(self, I):
        self.I = I
        self.atoms, self.memo = {}, {}
        self.start()
        for c in I.pc:
            self.s.add(self.abstract(c))

    def start(self):
        self.s = z3.SolverFor('QF_FD')

    def abstract(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = t, self.one(t)
        return self.memo[k][1]

    def one(self, t):
        if z3.is_and(t) or z3.is_or(t) or z3.is_not(t) or z3.is_implies(t):
            return t.decl()(*[self.abstract(c) for c in t.children()])
        if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_bool(t):
            return z3.If(*[self.abstract(c) for c in t.children()])
        if z3.is_eq(t) and z3.is_bool(t.arg(0)):
            return self.abstract(t.arg(0)) == self.abstract(t.arg(1))
        if z3.is_const(t):
            return t
        if z3.is_distinct(t) and t.num_args() == 2:
            return z3.Not(self.abstract(t.arg(0) == t.arg(1)))
        if z3.is_eq(t) and t.arg(0).get_id() > t.arg(1).get_id():
            t = t.arg(1) == t.arg(0)
        self.atoms[t.get_id()] = t
        return z3.Const('atom!%d' % t.get_id(), Bool)

    def proves(self, formula):
        if isinstance(formula, bool):
            formula = z3.BoolVal(formula)
        self.s.push()
        try:
            self.s.add(z3.Not(self.abstract(formula)))
            return self.s.check() == z3.unsat
        finally:
            self.s.pop()


class Judge:
    """Statements about the guarded events."""

    def __init__(self, I, w):
        self.I, self.w = I, w
        for e in w.events:
            b = I.fresh('event', Bool)
            I.assume(b == e.g)
            e.g = b
        self.fast = Fast(I)
        self.stacks()

    def stacks(self):
        """Follow the stack of programs.

        open[x]: [(number of push, condition)] of the programs open at x,
        ended[j]: the same for the program ended by pop number j"""
        now = []
        self.open, self.ended = [], {}
        self.under = []
        for e in self.w.events:
            self.open.append(list(now))
            if e.kind == 'push':
                now.append((e.i, e.g))
            elif e.kind == 'pop':
                need = e.g
                out = self.ended[e.i] = []
                for k in range(len(now) - 1, -1, -1):
                    if self.fast.proves(z3.Not(need)):
                        break
                    i, alive = now[k]
                    if self.fast.proves(z3.Not(z3.And(need, alive))):
                        continue
                    m = self.named('match', z3.And(need, alive))
                    out.append((i, m))
                    need = self.named('rest', z3.And(need, z3.Not(alive)))
                    now[k] = i, self.named('open', z3.And(alive,
                                                          z3.Not(m)))
                now = [(i, c) for i, c in now
                       if not self.fast.proves(z3.Not(c))]
                self.under.append(need)
        self.open.append(now)

    def top(self, x):
        """[(push or None, condition)]: the program event x stands in"""
        out, above = [], []
        for i, c in reversed(self.open[x]):
            out.append((i, z3.And(c, *above)))
            above.append(z3.Not(c))
        out.append((None, z3.And(*above)))
        return out

    def at_top(self, x, i):
        return z3.Or(*[c for k, c in self.top(x) if k == i])

    def ok(self, name, formula):
        """The propositional back end first, then the full theory."""
        x = self.I.x
        t = time.time()
        if self.fast.proves(formula):
            t = time.time() - t
            x.solver_time += t
            x.solver_calls += 1
            x.by_solver += 1
            x.obligations.append(Obligation(name, 'discharged', t,
                                            'element', None, [], 'z3-fd'))
            return True
        return self.I.prove(name, formula)

    def prove_in(self, s, name, formula):
        """Prove with the assumptions of this solver."""
        x = self.I.x
        t = time.time()
        s.push()
        s.add(z3.Not(formula))
        r = s.check()
        s.pop()
        t = time.time() - t
        x.solver_time += t
        x.solver_calls += 1
        status = {'unsat': 'discharged', 'sat': 'refuted'}.get(
            str(r), 'undecided')
        x.by_solver += status == 'discharged'
        x.obligations.append(Obligation(name, status, t, 'element', None,
                                        [], 'z3'))
        return status == 'discharged'

    def named(self, name, c):
        b = self.I.fresh(name, Bool)
        self.I.assume(b == c)
        self.fast.s.add(self.fast.abstract(b == c))
        return b

    # ---- the directives of the element
    def has(self, key):
        ns, k = key.split(':')
        return self.w.has[ns, k]

    def val(self, key):
        ns, k = key.split(':')
        return self.w.val[ns, k].t

    def given(self, key):
        return z3.And(self.has(key), self.val(key) != strval(''))

    def any_of(self, *nss):
        return z3.Or(*[g for (ns, k), g in self.w.has.items() if ns in nss])

    # ---- events
    def emits(self, *ops):
        """(guard, event) of the places where these are emitted"""
        out = []
        for e in self.w.events:
            if e.kind == 'emit':
                ts = [self.I.eq_term(e.args[0], Py(op)) for op in ops]
                ts = [z3.BoolVal(t) if isinstance(t, bool) else t for t in ts]
                g = z3.simplify(z3.And(e.g, z3.Or(*ts)))
                if not z3.is_false(g):
                    out.append((g, e))
        return out

    def once(self, name, sites, pres):
        """One of the sites is reached exactly if pres."""
        gs = [g for g, e in sites]
        self.ok(name, z3.And(z3.Or(*gs) == pres, *[
            z3.Not(z3.And(a, b)) for i, a in enumerate(gs) for b in gs[:i]]))

    def programs(self, v):
        """(guard, index of pop) for a value that is a program"""
        out = []
        for g, x in self.I.alts(v):
            c = isinstance(x, Ref) and self.I.cell(x)
            if c and isinstance(c, HObj) and isinstance(c.model, Program):
                out.append((conj(g), c.model.event.i))
            else:
                out.append((conj(g), None))
        return out

    def within(self, x, v, direct=False):
        """Event number x is in the program v."""
        alts = []
        for g, j in self.programs(v):
            if j is None or x > j:
                continue
            for i, c in self.ended[j]:
                if i < x:
                    t = z3.And(g, c)
                    if direct:
                        t = z3.And(t, self.at_top(x, i))
                    alts.append(t)
        return z3.Or(*alts)

    def same_block(self, a, b):
        return z3.And(*[z3.Implies(c, self.at_top(b, i))
                        for i, c in self.top(a)])


def facts(j):
    """What of the element is in force, from the property statements."""
    w = j.w
    f = {}
    f['fill'] = z3.And(j.has('metal:fill-slot'), w.use)
    act = z3.Or(z3.Not(w.use), f['fill'])
    f['act'] = act
    f['define-macro'] = z3.And(j.has('metal:define-macro'), act)
    f['use'] = z3.And(z3.Or(j.has('metal:use-macro'),
                            j.has('metal:extend-macro')), act)
    f['extend'] = z3.And(j.has('metal:extend-macro'), act)
    f['define-slot'] = z3.And(j.has('metal:define-slot'), act)
    f['scope'] = j.any_of('tal', 'i18n')
    f['any'] = j.any_of('tal', 'metal', 'i18n')
    f['content'] = z3.Or(j.has('tal:content'), j.has('tal:replace'))
    f['content value'] = z3.If(j.has('tal:replace'), j.val('tal:replace'),
                               j.val('tal:content'))
    f['name'] = j.given('i18n:name')
    f['translate'] = j.has('i18n:translate')
    f['optional tag'] = z3.Or(j.has('tal:omit-tag'), j.has('tal:replace'),
                              j.has('tal:tal tag'))
    return f


def layers(j, f):
    """(name, sites, position of its program, presence), outermost first"""
    content = j.emits('insertText', 'insertStructure', 'insertI18nText',
                      'insertI18nStructure')
    # the handler of tal:on-error inserts too, but has no program
    content = [(g, e) for g, e in content
               if any(k is not None for _, k in j.programs(e.args[-1]))]
    main = [(g, e) for g, e in j.emits('optTag')
            if not (isinstance(e.args[2], Py) and e.args[2].v is None
                    and isinstance(e.args[3], Py) and e.args[3].v == 1)]
    return [
        ('fillSlot', j.emits('fillSlot'), 2, f['fill']),
        ('defineMacro', j.emits('defineMacro'), 2, f['define-macro']),
        ('useMacro', j.emits('useMacro', 'extendMacro'), 4, f['use']),
        ('defineSlot', j.emits('defineSlot'), 2, f['define-slot']),
        ('onError', j.emits('onError'), 1, j.has('tal:on-error')),
        ('condition', j.emits('condition'), 2, j.has('tal:condition')),
        ('loop', j.emits('loop'), 3, j.has('tal:repeat')),
        ('i18nVariable', j.emits('i18nVariable'), 2, f['name']),
        ('optTag', main, 6, f['optional tag']),
        ('content', content, -1, f['content']),
        ('insertTranslation', j.emits('insertTranslation'), 2,
         z3.And(f['translate'], z3.Not(f['content']))),
        ('evaluateCode', j.emits('evaluateCode'), 2, j.has('tal:script')),
    ]


def structure(j, f):
    """C05, C22: the compiled form."""
    w, I = j.w, j.I
    ev = w.events
    ls = layers(j, f)
    for n, sites, k, pres in ls:
        j.once('%s is emitted exactly if it is asked for' % n, sites, pres)
    kids = [(e.g, e) for e in ev if e.kind == 'children']
    inner = ls + [('content of the element', kids, None, None)]
    for a, (n, sites, k, pres) in enumerate(ls):
        for g, e in sites:
            for n2, sites2, k2, pres2 in inner[a + 1:]:
                for g2, e2 in sites2:
                    if e2.i > e.i:
                        continue
                    j.ok('%s encloses %s' % (n, n2), z3.Implies(
                        z3.And(g, g2), j.within(e2.i, e.args[k])))
    for a, (n, sites, k, pres) in enumerate(inner):
        for g, e in sites:
            nearest(j, n, g, e, ls[:a])
    for i, c in j.open[-1]:
        j.ok('every program begun is ended', z3.Not(c))
    for c in j.under:
        j.ok('no program of the surroundings is ended', z3.Not(c))


def nearest(j, n, g, e, outer):
    """The event is directly in the program of the innermost of the outer
    layers there are."""
    none = [z3.Not(p) for _, _, _, p in outer]
    j.ok('%s stands alone' % n, z3.Implies(
        z3.And(g, *none), j.at_top(e.i, None)))
    for b, (n2, sites2, k2, pres2) in enumerate(outer):
        between = [z3.Not(p) for _, _, _, p in outer[b + 1:]]
        for g2, e2 in sites2:
            if e2.i > e.i:
                j.ok('%s is directly in %s' % (n, n2), z3.Implies(
                    z3.And(g, g2, *between),
                    j.within(e.i, e2.args[k2], True)))
            else:
                j.ok('%s is not after %s' % (n, n2), z3.Not(z3.And(g, g2)))


def eq(I, a, b):
    t = I.eq_term(a, b)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def same_value(j, v, want):
    """The value is this object."""
    I = j.I
    return z3.Or(*[conj(g) for g, x in I.alts(v) if I.same(x, want)])


def arguments(j, f):
    """C22, C07: the instructions carry the expressions written."""
    I = j.I

    def expr(name, sites, k, want, when=None):
        for g, e in sites:
            if when is not None:
                g = z3.And(g, when)
            alts = [z3.And(conj(h), x.t == want) for h, x in
                    I.alts(e.args[k]) if isinstance(x, Sym)
                    and x.kind == 'obj']
            j.ok('%s has its expression' % name, z3.Implies(
                g, z3.Or(*alts)))
    subst = z3.Function('subst expr', Str, Str)
    ls = {n: sites for n, sites, k, p in layers(j, f)}
    expr('condition', ls['condition'], 1, compiled(j.val('tal:condition')))
    expr('content', ls['content'], 1, compiled(subst(f['content value'])))
    use = z3.If(j.has('metal:use-macro'), j.val('metal:use-macro'),
                j.val('metal:extend-macro'))
    expr('useMacro', ls['useMacro'], 2, compiled(use))
    expr('optTag', ls['optTag'], 2, compiled(j.val('tal:omit-tag')),
         j.given('tal:omit-tag'))
    for g, e in ls['optTag']:
        j.ok('optTag without expression', z3.Implies(
            z3.And(g, z3.Not(j.given('tal:omit-tag'))),
            z3.Not(truth(I, e.args[2]))))
        j.ok('optTag knows directive elements', z3.Implies(
            g, truth(I, e.args[3]) == j.has('tal:tal tag')))
    for g, e in ls['loop']:
        j.ok('loop has the name and expression written', z3.Implies(
            g, repeat_parts(j, e)))
    for g, e in ls['content']:
        kind = pred('is structure', f['content value'])
        for op, c in (('insertText', z3.And(z3.Not(kind),
                                            z3.Not(f['translate']))),
                      ('insertI18nText', z3.And(z3.Not(kind),
                                                f['translate'])),
                      ('insertStructure', z3.And(kind,
                                                 z3.Not(f['translate']))),
                      ('insertI18nStructure', z3.And(kind,
                                                     f['translate']))):
            j.ok('kind of content', z3.Implies(
                z3.And(g, eq(I, e.args[0], Py(op))), c))
    for g, e in ls['insertTranslation']:
        j.ok('insertTranslation has the message id written', z3.Implies(
            g, eq(I, e.args[1], Sym('str', j.val('i18n:translate'), str))))
        if len(e.args) > 3:
            j.ok('insertTranslation has its data', z3.Implies(g, z3.And(
                j.has('i18n:data'), z3.Or(*[
                    z3.And(conj(h), x.t == compiled(subst(
                        j.val('i18n:data')))) for h, x in
                    I.alts(e.args[3]) if isinstance(x, Sym)]))))
        else:
            j.ok('insertTranslation has no data', z3.Implies(
                g, z3.Not(j.has('i18n:data'))))
    for g, e in ls['i18nVariable']:
        j.ok('i18nVariable has its name', z3.Implies(
            g, eq(I, e.args[1], Sym('str', j.val('i18n:name'), str))))
    for n, key in (('fillSlot', 'fill-slot'), ('defineMacro', 'define-macro'),
                   ('defineSlot', 'define-slot')):
        strip = z3.Function('strip', Str, Str)
        for g, e in ls[n]:
            j.ok('%s has its name' % n, z3.Implies(g, eq(
                I, e.args[1], Sym('str', strip(j.val('metal:' + key)),
                                  str))))
    for g, e in ls['useMacro']:
        j.ok('useMacro or extendMacro', z3.Implies(
            z3.And(g, f['extend']), eq(I, e.args[0], Py('extendMacro'))))
        j.ok('extendMacro or useMacro', z3.Implies(
            z3.And(g, z3.Not(f['extend'])), eq(I, e.args[0],
                                               Py('useMacro'))))
    d = j.emits('defines')
    j.once('definitions are made exactly if asked for', d,
           j.has('tal:define'))
    for g, e in d:
        j.ok('definitions are those written', z3.Implies(
            g, eq(I, e.args[1], Sym('str', j.val('tal:define'), str))))


def truth(I, v):
    t = I.truth(v)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def repeat_parts(j, e):
    """Name and expression are groups of the match of the directive."""
    v = j.val('tal:repeat')
    pat, name = repeat_pattern(j.I.x, v)
    m = MatchModel(pat, name, v)
    return z3.And(eq(j.I, e.args[1], m.group(j.I, 1)),
                  z3.Or(*[z3.And(conj(g), x.t == compiled(
                      m.group(j.I, 2).t)) for g, x in
                      j.I.alts(e.args[2]) if isinstance(x, Sym)]))


def repeat_pattern(x, v):
    """How tal:repeat is taken apart."""
    if not any(what == 'repeat' for pat, name, t, what in x.patterns):
        raise Unsupported('tal:repeat is taken apart in another way')
    return rxspec.spec('repeat')


def patterns(j, f):
    """C11: tal:repeat is a name and an expression."""
    v = j.val('tal:repeat')
    for pat, name, t, what in j.I.x.patterns:
        if not t.eq(v) or what == 'repeat':
            continue
        d = rxspec.differs('repeat', pat, name)
        if d is False:
            raise Unsupported('tal:repeat is taken apart in another way')
        j.I.x.obligations.append(Obligation(
            'a repetition is a name and an expression', 'refuted', 0,
            'element', 'tal:repeat=%r' % d, [], 'automata'))
        return
    repeat_pattern(j.I.x, v)
    j.I.x.obligations.append(Obligation(
        'a repetition is a name and an expression', 'discharged', 0,
        'element', None, [], 'automata'))


def scopes(j, f):
    """C05: scopes and contexts are closed in the block that opens them."""
    w, I = j.w, j.I
    ls = layers(j, f)
    b, e = j.emits('beginScope'), j.emits('endScope')
    cb, ce = j.emits('beginI18nContext'), j.emits('endI18nContext')
    j.once('a scope is opened exactly if there are directives', b, f['scope'])
    j.once('a scope is closed exactly if one was opened', e, f['scope'])
    j.once('a context is closed exactly if one was opened', ce,
           z3.Or(*[g for g, _ in cb]))
    j.once('a context is opened at most once', cb,
           z3.Or(*[g for g, _ in cb]))
    for what, x, y in (('scope', b, e), ('context', cb, ce)):
        for g1, e1 in x:
            for g2, e2 in y:
                if e1.i < e2.i:
                    j.ok('%s is closed in the block that opens it' % what,
                         z3.Implies(z3.And(g1, g2), j.same_block(e1.i,
                                                                 e2.i)))
                else:
                    j.ok('%s is opened before it is closed' % what,
                         z3.Not(z3.And(g1, g2)))
    for g1, c1 in cb:
        for g2, b1 in b:
            j.ok('context encloses scope', z3.Implies(
                z3.And(g1, g2), c1.i < b1.i))
    for g1, c1 in ce:
        for g2, b1 in e:
            j.ok('context encloses scope (end)', z3.Implies(
                z3.And(g1, g2), c1.i > b1.i))
    # what belongs to the element's scope is between
    for n, sites, k, pres in ls[4:] + [
            ('definitions', j.emits('defines'), None, None),
            ('content of the element', [(x.g, x) for x in w.events
                                        if x.kind == 'children'], 0, 0)]:
        for g, x in sites:
            for g1, e1 in b:
                j.ok('%s comes after the scope is opened' % n, z3.Implies(
                    z3.And(g, g1), e1.i < x.i))
            for g1, e1 in e:
                j.ok('%s comes before the scope is closed' % n, z3.Implies(
                    z3.And(g, g1), x.i < e1.i))
    # macro, slot and filler enclose the scope
    for what, sites in (('scope', b), ('context', cb)):
        for g, e1 in sites:
            nearest(j, what, g, e1, ls[:4])
    # definitions: directly in the block of the scope or of on-error
    for g, x in j.emits('defines'):
        for g1, o in j.emits('onError'):
            j.ok('onError encloses definitions', z3.Implies(
                z3.And(g, g1), j.within(x.i, o.args[1], True)))
        for g1, b1 in b:
            j.ok('definitions are in the block of the scope', z3.Implies(
                z3.And(g, g1, z3.Not(j.has('tal:on-error'))),
                j.same_block(b1.i, x.i)))
        for n, sites, k, pres in ls[5:]:
            for g1, s in sites:
                if s.i < x.i:
                    j.ok('definitions come first', z3.Not(z3.And(g, g1)))


def tags(j, f):
    """C22: start tag and end tag."""
    w, I = j.w, j.I
    ls = {n: (sites, k) for n, sites, k, p in layers(j, f)}
    starts = j.emits('startTag', 'startEndTag')
    own, copy = [], []
    for g, e in starts:
        v = e.args[2]
        mine = z3.Or(*[conj(h) for h, x in I.alts(v)
                       if isinstance(x, Tup) and isinstance(x.items[0], Py)
                       and x.items[0].v == 'replaced'
                       or isinstance(x, Ref) and x == w.attrs])
        own.append((z3.And(g, mine), e))
        copy.append((z3.And(g, z3.Not(mine)), e))
    j.once('there is one start tag', own, z3.BoolVal(True))
    j.once('tal:on-error has a start tag of its own', copy,
           j.has('tal:on-error'))
    for g, e in own:
        nearest(j, 'start tag', z3.And(g, z3.Not(f['optional tag'])), e,
                layers(j, f)[:8])
        for g1, x in ls['optTag'][0]:
            j.ok('optTag has the start tag', z3.Implies(
                z3.And(g, g1), j.within(e.i, x.args[5], True)))
        for n in ('content', 'insertTranslation', 'evaluateCode'):
            for g1, x in ls[n][0]:
                j.ok('start tag comes before %s' % n, z3.Implies(
                    z3.And(g, g1), z3.And(e.i < x.i, z3.Not(
                        j.within(e.i, x.args[ls[n][1]])))))
        j.ok('start tag has its name', z3.Implies(
            g, eq(I, e.args[1], w.name)))
    ends = j.emits('endTag')
    handler = []
    for g1, o in j.emits('onError'):
        for g, e in ends:
            handler.append((e, z3.And(g1, j.within(e.i, o.args[2], True))
                            if e.i < o.i else z3.BoolVal(False)))
    outside = []
    for g, e in ends:
        inh = z3.Or(*[c for x, c in handler if x is e])
        outside.append((z3.And(g, z3.Not(inh)), e))
    j.once('there is an end tag exactly if the tag is neither optional nor '
           'empty', outside, z3.And(z3.Not(f['optional tag']),
                                    z3.Not(w.isend), z3.Not(w.void)))
    for g, e in outside:
        for n in ('content', 'insertTranslation', 'evaluateCode'):
            for g1, x in ls[n][0]:
                j.ok('end tag comes after %s' % n, z3.Implies(
                    z3.And(g, g1), e.i > x.i))
        for g1, s in own:
            j.ok('end tag is in the block of the start tag', z3.Implies(
                z3.And(g, g1), j.same_block(s.i, e.i)))


def attributes(j, f):
    """C02: what the start tag's attributes are made of."""
    w, I = j.w, j.I
    asked = z3.Or(j.has('tal:attributes'), j.has('i18n:attributes'))
    for g, e in j.emits('startTag', 'startEndTag'):
        for h, x in I.alts(e.args[2]):
            if not (isinstance(x, Tup) and isinstance(x.items[0], Py)
                    and x.items[0].v == 'replaced'):
                continue
            g2 = z3.And(g, conj(h))
            j.ok('start tag has the attributes of the element', z3.Implies(
                g2, same_value(j, x.items[1], w.attrs)))
            full = z3.Or(*[conj(p) for p, v in I.alts(x.items[2])
                           if nonempty(I, v)])
            j.ok('attributes are replaced exactly if asked for', z3.Implies(
                g2, full == z3.And(asked, z3.Not(j.has('tal:replace')))))
    for n, sites, k, p in layers(j, f):
        if n != 'content':
            continue
        for g, e in sites:
            if len(e.args) < 4:
                continue
            full = z3.Or(*[conj(p) for p, v in I.alts(e.args[2])
                           if nonempty(I, v)])
            j.ok('attributes of a replaced element go with the structure',
                 z3.Implies(g, full == z3.And(asked,
                                              j.has('tal:replace'))))


def nonempty(I, v):
    c = isinstance(v, Ref) and I.cell(v)
    if c and isinstance(c, HDict):
        return bool(c.entries)
    return True


def positions(j, f):
    """C17: position and source file are told in time."""
    w, I = j.w, j.I
    ev = w.events
    ls = {n: (sites, k) for n, sites, k, p in layers(j, f)}
    where = z3.And(f['any'], z3.Not(w.nopos))
    files = [(z3.And(g, same_alt(j, e.args[1], w.src)), e)
             for g, e in j.emits('setSourceFile')]
    hasfile = z3.Or(*[conj(g) for g, x in I.alts(w.src)
                      if isinstance(x, Sym)])
    pos = [(z3.And(g, eq(I, e.args[1], w.pos0)), e)
           for g, e in j.emits('setPosition')]
    first = []
    for g, e in pos:
        before = [x.g for x in ev[:e.i] if x.kind in ('push', 'emit')]
        first.append((z3.And(g, z3.Not(z3.Or(*before))), e))
    j.ok('the position is told before anything else', z3.Implies(
        where, z3.Or(*[g for g, _ in first])))
    told = [e for g, e in j.emits('version', 'mode', 'setPosition',
                                  'setSourceFile')]
    for n in ('fillSlot', 'defineMacro'):
        for g, e in ls[n][0]:
            k = ls[n][1]

            def early(s):
                return [z3.And(x.g, j.within(x.i, e.args[k]))
                        for x in ev[:s.i] if x.kind == 'emit'
                        and x not in told]
            j.ok('%s starts with the source file' % n, z3.Implies(
                z3.And(g, hasfile), z3.Or(*[
                    z3.And(h, j.within(s.i, e.args[k], True),
                           z3.Not(z3.Or(*early(s))))
                    for h, s in files if s.i < e.i])))
            j.ok('%s starts with the position' % n, z3.Implies(
                z3.And(g, hasfile, where), z3.Or(*[
                    z3.And(h, j.within(s.i, e.args[k], True),
                           z3.Not(z3.Or(*early(s))))
                    for h, s in pos if s.i < e.i])))
    for n in ('useMacro', 'defineSlot'):
        for g, e in ls[n][0]:
            j.ok('the source file is told again after %s' % n, z3.Implies(
                z3.And(g, hasfile), z3.Or(*[
                    z3.And(h, z3.BoolVal(s.i > e.i)) for h, s in files])))
    for g, e in j.emits('setSourceFile'):
        j.ok('no other source file is told', z3.Implies(
            g, same_alt(j, e.args[1], w.src)))


def same_alt(j, v, u):
    """Two values are equal."""
    return eq(j.I, v, u)


def contexts(j, f):
    """C16: the translation context of the element."""
    w, I = j.w, j.I
    ctx = I.cell(w.ctx).fields

    def want(key):
        return I.ite(j.given('i18n:' + key), w.val['i18n', key], ctx[key])
    some = z3.Or(j.given('i18n:domain'), z3.Not(w.top), *[
        z3.Not(eq(I, want(k), Py(None))) for k in ('source', 'target')])
    cb = j.emits('beginI18nContext')
    j.ok('a context is begun if needed', z3.Implies(
        z3.And(z3.Or(f['define-slot'], j.any_of('i18n')), some),
        z3.Or(*[g for g, e in cb])))
    for g, e in cb:
        j.ok('a context is begun only if there is one', z3.Implies(g, some))
        c = I.cell(e.args[1])
        for k in ('domain', 'source', 'target'):
            vs = [v for h, kk, v in c.entries
                  if isinstance(kk, Py) and kk.v == k]
            j.ok('context has the %s in force' % k, z3.Implies(
                g, eq(I, vs[0], want(k)) if len(vs) == 1 else False))


def state(j, f):
    """The state of the generator is as before."""
    w, I = j.w, j.I
    o = I.cell(w.gen).fields
    j.ok('generator state: macro use', eq(I, o['inMacroUse'], w.use0))
    j.ok('generator state: macro definition', eq(I, o['inMacroDef'],
                                                 w.defs))
    j.ok('generator state: translation units', eq(I, o['i18nLevel'],
                                                  w.level))
    j.ok('generator state: translation context', z3.Or(*[
        conj(g) for g, x in I.alts(o['i18nContext']) if x == w.ctx]))
    todo = I.cell(o['todoStack'])
    j.ok('generator state: open elements', z3.And(*[
        z3.Not(conj(g)) for g, _ in todo.items]))
    for n, p, q in (('slots', 'pushSlots', 'popSlots'),):
        a = [(e.g, e) for e in w.events if e.kind == p]
        b = [(e.g, e) for e in w.events if e.kind == q]
        j.once('fillers are collected anew for each use', a, f['use'])
        j.once('fillers of the surroundings come back', b, f['use'])
        for g, e in a:
            for g2, e2 in [(x.g, x) for x in w.events
                           if x.kind == 'children']:
                j.ok('fillers are collected from the content', z3.Implies(
                    z3.And(g, g2), e.i < e2.i))
        for g, e in b:
            for g1, u in j.emits('useMacro', 'extendMacro'):
                j.ok('use gets the fillers collected', z3.Implies(
                    z3.And(g, g1), z3.Or(*[
                        conj(h) for h, x in I.alts(u.args[3])
                        if I.same(x, e.val)]) if e.i < u.i else False))
    fills = [(e.g, e) for e in w.events if e.kind == 'set slot']
    j.once('a filler is remembered', fills, f['fill'])
    for g, e in fills:
        for g1, s in j.emits('fillSlot'):
            j.ok('filler is the one compiled', z3.Implies(
                z3.And(g, g1), z3.And(eq(I, e.args[0], s.args[1]),
                                      same_prog(j, e.args[1], s.args[2]))))
    macros = [(e.g, e) for e in w.events if e.kind == 'set macro']
    j.once('a macro is remembered', macros, f['define-macro'])
    for g, e in macros:
        for g1, s in j.emits('defineMacro'):
            j.ok('macro is the one compiled', z3.Implies(
                z3.And(g, g1), z3.And(eq(I, e.args[0], s.args[1]),
                                      same_prog(j, e.args[1], s.args[2]))))


def listed_faults(j, f):
    """C11: [(what, condition)] of what must be rejected, and of what may be
    rejected as well."""
    w, I = j.w, j.I
    has, val, given = j.has, j.val, j.given
    strip = z3.Function('strip', Str, Str)
    subst = z3.Function('subst expr', Str, Str)
    out = []

    def must(what, c):
        out.append((what, c))
    for ns in KNOWN:
        must('unknown %s directive' % ns, w.has[ns, None])
        for k in KNOWN[ns]:
            if (ns, k) in (('tal', 'omit-tag'), ('tal', 'tal tag')) or \
                    ns == 'i18n' and k not in ('attributes', 'data'):
                continue
            must('%s:%s without value' % (ns, k), z3.And(
                w.has[ns, k], w.val[ns, k].t == strval('')))
    act = f['act']
    macro = z3.Or(*[has('metal:' + k) for k in (
        'define-macro', 'extend-macro', 'use-macro')])
    slot = z3.Or(has('metal:define-slot'), has('metal:fill-slot'))
    must('content with replace', z3.And(has('tal:content'),
                                        has('tal:replace')))
    must('explicit message id with content', z3.And(
        f['content'], given('i18n:translate')))
    must('extend-macro with use-macro', z3.And(
        act, has('metal:extend-macro'), has('metal:use-macro')))
    must('define-macro with use-macro', z3.And(
        act, has('metal:define-macro'), has('metal:use-macro')))
    must('extend-macro without define-macro', z3.And(
        act, has('metal:extend-macro'), z3.Not(has('metal:define-macro'))))
    must('slots with macros', z3.And(act, macro, slot))
    must('fill-slot outside a macro use', z3.And(
        has('metal:fill-slot'), z3.Not(w.use)))
    must('define-slot outside a macro definition', z3.And(
        f['define-slot'], w.defs.t == 0))
    must('i18n:name outside a translation unit', z3.And(
        f['name'], w.level.t == 0))
    must('i18n:data without explicit message id', z3.And(
        has('i18n:data'), z3.Not(given('i18n:translate'))))
    must('i18n:data with a structure', z3.And(
        has('i18n:data'), pred('is structure', val('i18n:data'))))
    for what, k, on, n in (('macro', 'define-macro', f['define-macro'],
                            'macro'),
                           ('slot', 'define-slot', f['define-slot'], None),
                           ('filler', 'fill-slot', f['fill'], 'slot')):
        name = strip(val('metal:' + k))
        must('invalid %s name' % what, z3.And(on, z3.Not(pred('is name',
                                                              name))))
        if n:
            must('duplicate %s name' % what, z3.And(on, pred(
                'already ' + n, name)))
    must('invalid i18n:name', z3.And(f['name'], z3.Not(pred(
        'is name', val('i18n:name')))))
    must('invalid definition', z3.And(has('tal:define'), z3.Not(pred(
        'defines are right', val('tal:define')))))
    must('invalid attribute list', z3.And(has('tal:attributes'), z3.Not(pred(
        'attributes are right', val('tal:attributes')))))
    must('invalid i18n attribute list', z3.And(
        has('i18n:attributes'), z3.Not(pred(
            'i18n attributes are right', val('i18n:attributes')))))
    pat, how = repeat_pattern(I.x, None)
    ok = z3.Function("re_%s<%r,%d>" % (how, pat.pattern, pat.flags), Str,
                     Bool)(val('tal:repeat'))
    must('invalid repetition', z3.And(has('tal:repeat'), z3.Not(ok)))
    must('refused tal:repeat', z3.And(has('tal:repeat'), z3.Not(compiles(
        MatchModel(pat, how, val('tal:repeat')).group(I, 2).t))))

    def refused(what, on, e):
        must('refused ' + what, z3.And(on, z3.Not(compiles(e))))
    refused('condition', has('tal:condition'), val('tal:condition'))
    refused('content', f['content'], subst(f['content value']))
    refused('on-error', has('tal:on-error'), subst(val('tal:on-error')))
    refused('omit-tag', given('tal:omit-tag'), val('tal:omit-tag'))
    refused('use-macro', z3.And(act, has('metal:use-macro')),
            val('metal:use-macro'))
    refused('extend-macro', z3.And(act, has('metal:extend-macro')),
            val('metal:extend-macro'))
    refused('data', has('i18n:data'), subst(val('i18n:data')))
    may = [
        ('extend-macro with use-macro', z3.And(
            has('metal:extend-macro'), has('metal:use-macro'))),
        ('define-macro with use-macro', z3.And(
            has('metal:define-macro'), has('metal:use-macro'))),
        ('extend-macro without define-macro', z3.And(
            has('metal:extend-macro'), z3.Not(has('metal:define-macro')))),
        ('slots with macros', z3.And(macro, slot)),
        ('tal tag without value', z3.And(
            has('tal:tal tag'), val('tal:tal tag') == strval(''))),
        ('closed implicitly', w.implied.t > 0),
    ]
    for here, g, m, k, lifted, sets in w.iterations:
        for cls, (e, ts) in lifted.items():
            may.append(('some attribute has a fault', z3.And(here, e)))
    return out, may


def attribute_fault(j, m, k):
    """An attribute of tal:attributes that must be rejected."""
    w = j.w
    bad = z3.Not(compiles(m.val(k)))
    msgs = getattr(w, 'msgs', None)
    if msgs is not None:
        bad = z3.Or(bad, z3.And(j.has('i18n:attributes'), msgs.has(k),
                                msgs.expl(k)))
    return bad


def faults(j, f):
    """C11: rejected exactly if there is a fault."""
    from zope.tal.taldefs import TALError
    w, I = j.w, j.I
    must, may = listed_faults(j, f)
    for what, c in must:
        j.ok('rejected: ' + what, z3.Not(c))
    every = z3.Or(*[c for _, c in must + may])
    s = z3.Solver()
    s.set('timeout', 20000)
    n = 0
    for i, (g, exc) in enumerate(I.escapes):
        while n < I.escape_pcs[i]:
            s.add(I.pc[n])
            n += 1
        j.prove_in(s, 'rejected for a fault', z3.Implies(g, every))
        j.ok('rejected with an error of the compiler', z3.BoolVal(
            isinstance(exc.cls, type) and issubclass(exc.cls, TALError)))
    # the attributes of tal:attributes, one by one
    for here, g, m, k, lifted, sets in w.iterations:
        for cls, (e, ts) in lifted.items():
            for t in ts:
                s = z3.Solver()
                s.set('timeout', 20000)
                j.prove_in(s, 'attribute is rejected for a fault', z3.Implies(
                    t, z3.And(g, attribute_fault(j, m, k.t))))
        if m is getattr(w, 'repl', None):
            j.ok('attribute with a fault is rejected', z3.Not(z3.And(
                here, g, attribute_fault(j, m, k.t))))


def replacements(j, f):
    """C02: expression, translation and message id of each attribute."""
    w, I = j.w, j.I
    repl, msgs = getattr(w, 'repl', None), getattr(w, 'msgs', None)
    kinds = [m for _, _, m, _, _, _ in w.iterations]
    if kinds != [repl, msgs]:
        raise Unsupported('attributes are handled in another way')
    for here, g, m, k, lifted, sets in w.iterations:
        found = []
        for x in sets:
            if isinstance(x[0], Replacements):
                if x[0] is not repl:
                    raise Unsupported('i18n attributes are changed')
                found.append(x[1:])
            elif x[0] == 'dict':
                for h, kk, v in I.cell(Ref(x[1])).entries:
                    found.append((conj(h), kk, v))
            else:
                raise Unsupported('attributes: %r' % (x,))
        on = z3.And(here, g)
        wanted = z3.BoolVal(True)
        msgid = z3.And(j.has('i18n:attributes'), msgs.has(k.t))
        if m is msgs:
            wanted = z3.Not(z3.And(j.has('tal:attributes'),
                                   repl.has(k.t)))
        j.once('attribute is recorded', [(z3.And(on, a), None)
                                         for a, _, _ in found],
               z3.And(on, wanted))
        for a, kk, v in found:
            a = z3.And(on, a)
            j.ok('attribute is recorded under its name', z3.Implies(
                a, eq(I, kk, k)))
            e, t, i = v.items
            if m is repl:
                j.ok('attribute has its expression', z3.Implies(a, z3.Or(*[
                    z3.And(conj(h), x.t == compiled(m.val(k.t)))
                    for h, x in I.alts(e) if isinstance(x, Sym)])))
            else:
                j.ok('attribute keeps its value', z3.Implies(
                    a, eq(I, e, Py(None))))
            j.ok('attribute is translated exactly if asked for', z3.Implies(
                a, truth(I, t) == msgid))
            j.ok('attribute has its message id', z3.Implies(
                a, z3.If(z3.And(msgid, msgs.expl(k.t)),
                         eq(I, i, Sym('str', msgs.val(k.t), str)),
                         z3.Not(truth(I, i)))))


def covers(j, f):
    """Nothing is proved for want of accepted elements."""
    for n, sites, k, pres in layers(j, f):
        j.I.x.covers.setdefault(n, False)
        for g, e in sites:
            j.I.solver.push()
            j.I.solver.add(g)
            if j.I.solver.check() == z3.sat:
                j.I.x.covers[n] = True
            j.I.solver.pop()
    for n in ('I18NError', 'METALError', 'TALError'):
        j.I.x.covers[n] = any(exc.cls.__name__ == n
                              for g, exc in j.I.escapes)


def same_prog(j, a, b):
    return z3.Or(*[z3.And(conj(g), conj(h)) for g, x in j.I.alts(a)
                   for h, y in j.I.alts(b) if j.I.same(x, y)])


def implied(j, f):
    """C13: an element whose directives have an effect needs an end tag."""
    w = j.w
    effect = z3.Or(f['scope'], f['fill'], f['define-macro'], f['use'],
                   f['define-slot'])
    j.ok('rejected: closed implicitly with directives', z3.Not(z3.And(
        w.implied.t > 0, effect, z3.Not(w.isend))))


PARTS = {
    'structure': structure, 'arguments': arguments, 'scopes': scopes,
    'tags': tags, 'patterns': patterns, 'attributes': attributes, 'positions': positions,
    'contexts': contexts, 'state': state, 'faults': faults,
    'replacements': replacements, 'implied': implied, 'covers': covers,
}


def main(I, parts):
    w = element(I)
    j = Judge(I, w)
    f = facts(j)
    for n in parts:
        try:
            PARTS[n](j, f)
        except Unsupported as e:
            I.x.unsupported.append('%s: %s' % (n, e))


#: functions executed, and functions used by contract
BODIES = ('emitStartElement', 'emitEndElement', 'emitStartTag', 'emitOptTag',
          'emitOnError', 'emitCondition', 'emitRepeat', 'emitSubstitution',
          'emitI18nSubstitution', 'emitEvaluateCode', 'emitI18nVariable',
          'emitTranslation', 'emitDefineMacro', 'emitUseMacro',
          'emitExtendMacro', 'emitDefineSlot', 'emitFillSlot', 'todoPush',
          'todoPop')


def run(c, parts, keep=None):
    from zope.tal.talgenerator import TALGenerator
    try:
        x = GenExplorer()
        x.max_seconds = 300
        x.run(lambda I: main(I, parts + ('covers',)), 'element')
    except Exception as e:
        c.undecide('element: %s: %s' % (type(e).__name__, e))
        return
    c.explorer(x, 'element', keep)
    for n in BODIES:
        c.under_contract(getattr(TALGenerator, n, n))
    if not x.obligations:
        c.undecide('element: no obligations')
    c.assume('the content of an element leaves the state of the compiler as '
             'it was (induction over nesting; the element itself is proved '
             'to)')
    c.assume('compiling an element: helper functions (program stack, '
             'replaceAttrs, parsing of attribute lists) by their contracts')
