"""Contracts of both parsers about namespaces (C14).

Which prefix is bound to which namespace is an arbitrary mapping; an element
has arbitrarily many attributes.
"""
import ast
import inspect
import textwrap

from pyvc.core import (Bool, ExcVal, HDict, HList, HObj, Int, Method, Obj, Py,
                       Ref, Str, Sym, SymRaise, SymSeq, Tup, Union,
                       Unsupported, conj, strval, z3)
from pyvc.explore import Explorer
from checks.helpsym import Map, instruction, items_of, raised
from checks.isym import Mismatch, Opaque, Rule, judged
from checks.optsym import Loop, Scene, as_bool, sequence
from checks.parsesym import bare
from checks.tmpl import NS

KINDS = ('tal', 'metal', 'i18n')


class NsExplorer(Explorer):
    """Names as the XML parser reports them; merging dictionaries."""

    def str_method(self, I, o, name, args, kw):
        if name in ('split', 'partition') and args and isinstance(
                args[0], Py) and self.reported is not None and I.same(
                o, self.reported[0]) and (name, [
                    a.v for a in args]) in self.reported[2]:
            parts = self.reported[1]
            if name == 'partition':
                return Tup((parts[0], args[0], parts[1]) if len(parts) > 1
                           else (parts[0], Py(''), Py('')))
            return I.new_list(parts)
        return Explorer.str_method(self, I, o, name, args, kw)

    def dict_update(self, I, o, c, v):
        d = I.cell(v) if isinstance(v, Ref) else None
        if not isinstance(d, HDict) or d.entries or not isinstance(
                d.base, Map) or c.entries or not isinstance(c.base, Map):
            return False
        I.note_write(('dict', o.addr))
        a, b = c.base, d.base
        c.base = Map(a.name + '+' + b.name,
                     lambda k: z3.Or(a.now(k), b.now(k)),
                     lambda k: Union([(b.now(k), b.val(k)),
                                      (z3.Not(b.now(k)), a.val(k))]))
        return True


def kind_of(uri):
    """(condition, directive namespace) for an URI term"""
    return [(uri == strval(NS[k]), k) for k in KINDS]


def maybe(I, name, f, none):
    """A mapping to strings or None."""
    return lambda k: Union([(none(k), Py(None)),
                            (z3.Not(none(k)), Sym('str', f(k), str))])


def bindings(I, name):
    has = z3.Function(name + ' bound', Str, Bool)
    uri = z3.Function(name + ' uri', Str, Str)
    none = z3.Function(name + ' no uri', Str, Bool)
    return Map(name, has, maybe(I, name, uri, none)), has, uri, none


# ------------------------------------------------------------ HTML: names
def html_fixname(I):
    from zope.tal.htmltalparser import HTMLTALParser as P
    w = Scene(I, 'HTMLTALParser.fixname')
    m, has, uri, none = bindings(I, 'prefix')
    obj = I.new_obj(P, {'nsdict': I.alloc(HDict(base=m, frozen=True))})
    name = I.fstr('name')
    # the name is prefix:suffix, or it has no prefix
    pre, suf = I.fresh('prefix', Str), I.fresh('suffix', Str)
    colon = z3.Contains(name.t, strval(':'))
    I.assume(z3.Implies(colon, z3.And(
        name.t == z3.Concat(pre, strval(':'), suf),
        z3.Not(z3.Contains(pre, strval(':'))))))
    I.x.reported = name, [Sym('str', x, str) for x in (pre, suf)] \
        if I.branch(colon) else [name], [
            ('split', [':', 1]), ('partition', [':'])]
    try:
        r = I.call(I.getattr(obj, 'fixname'), [name])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('three results', isinstance(r, Tup) and len(r.items) == 3)
    w.ok('the name stays', I.eq_term(r.items[0], name))
    base, ns = r.items[1:]

    def bound(p):
        return z3.And(has(p), z3.Not(none(p)))
    plain = [z3.BoolVal(True)]
    # cases: no prefix; declaration of a namespace; prefix of a namespace
    decl = z3.And(colon, pre == strval('xmlns'))
    if I.branch(z3.Not(colon)):
        w.ok('no prefix, no namespace', zero_ns(I, ns))
        w.ok('no prefix: the whole name', I.eq_term(base, name))
        I.x.cover(I, 'no prefix')
    elif I.branch(decl):
        for c, k in kind_of(uri(suf)):
            plain.append(z3.Not(z3.And(bound(suf), c)))
        if I.branch(z3.And(*plain)):
            w.ok('other declarations are plain attributes', I.eq_term(
                ns, OTHER))
            I.x.cover(I, 'other declaration')
        else:
            w.ok('a declaration of a directive namespace',
                 I.eq_term(ns, Py('xmlns')))
            I.x.cover(I, 'declaration')
    else:
        for c, k in kind_of(uri(pre)):
            plain.append(z3.Not(z3.And(bound(pre), c)))
        if I.branch(z3.And(*plain)):
            w.ok('a prefix bound to nothing special', I.eq_term(ns, OTHER))
            w.ok('a prefix bound to nothing special: the whole name',
                 I.eq_term(base, name))
            I.x.cover(I, 'other prefix')
        else:
            w.ok('a directive namespace', z3.And(*[
                z3.Implies(c, as_bool(I.eq_term(ns, Py(k))))
                for c, k in kind_of(uri(pre))]))
            # both are what follows the first colon
            w.ok('what follows the prefix', z3.Concat(
                pre, strval(':'), I.term(base, 'str')) == name.t)
            I.x.cover(I, 'directive')
    I.x.cover(I, 'ends normally')


#: what a prefix that means nothing here is reported as
OTHER = Py('unknown')


def zero_ns(I, v):
    t = I.truth(v)
    return not t if isinstance(t, bool) else z3.Not(t)


def xml_fixname(I):
    from zope.tal.talparser import TALParser as P
    w = Scene(I, 'TALParser.fixname')
    obj = I.new_obj(P, {})
    uri, local, pre = (I.fstr(x) for x in ('uri', 'local', 'prefix'))
    for x in (uri, local, pre):
        I.assume(z3.Not(z3.Contains(x.t, strval(' '))))
    k = I.decide(3)
    sp = strval(' ')
    if k == 0:
        name, parts, want = local, [local], local
    elif k == 1:
        name = Sym('str', z3.Concat(uri.t, sp, local.t), str)
        parts, want = [uri, local], local
    else:
        name = Sym('str', z3.Concat(uri.t, sp, local.t, sp, pre.t), str)
        parts = [uri, local, pre]
        want = I.concat([pre, Py(':'), local])
    I.x.reported = name, parts, [('split', [' '])]
    try:
        r = I.call(I.getattr(obj, 'fixname'), [name])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('three results', isinstance(r, Tup) and len(r.items) == 3)
    w.ok('the name is the one written', I.eq_term(r.items[0], want))
    w.ok('the local name', I.eq_term(r.items[1], local))
    ns = r.items[2]
    if k == 0:
        w.ok('no namespace', zero_ns(I, ns))
    else:
        for c, n in kind_of(uri.t):
            w.ok('directive namespace', as_bool(I.eq_term(ns, Py(n))) == c)
        w.ok('another namespace is not that of the element', as_bool(
            I.truth(ns)))
    I.x.cover(I, 'ends normally')


# --------------------------------------------------------- HTML: bindings
def attribute_list(I, name, none=True):
    n = I.fint('number of ' + name)
    I.assume(n.t >= 0)
    keys = z3.Function(name + ' key', Int, Str)
    vals = z3.Function(name + ' value', Int, Str)
    nov = z3.Function(name + ' without value', Int, Bool)

    def at(i):
        v = Sym('str', vals(i), str)
        if none:
            v = Union([(nov(i), Py(None)), (z3.Not(nov(i)), v)])
        return Tup((Sym('str', keys(i), str), v))
    return I.alloc(HList(base=SymSeq(name, n.t, at), frozen=True)), n.t


class All(Loop):
    """A loop over all attributes."""

    def __init__(self, attrs, *args, **kw):
        Loop.__init__(self, *args, **kw)
        self.attrs, self.whole = attrs, False

    def start_for(self, I, s, fr, it):
        self.w.ok('all attributes are looked at', not self.whole
                  and sequence(I, it)[0].eq(I.cell(self.attrs).base.length))
        Loop.start_for(self, I, s, fr, it)
        self.whole = True


def scan(I):
    from zope.tal.htmltalparser import HTMLTALParser as P
    w = Scene(I, 'scan_xmlns')
    attrs, n = attribute_list(I, 'attrs')
    m, has, uri, none = bindings(I, 'prefix')
    old = I.alloc(HDict(base=m, frozen=True))
    sbase = SymSeq('nsstack', I.fint('depth').t, lambda i: I.fobj('outer'))
    stack = I.alloc(HList(base=sbase))
    obj = I.new_obj(P, {'nsdict': old, 'nsstack': stack})
    st = {}
    new, nhas, nuri, nnone = bindings(I, 'new')
    some = new.some = I.fresh('some new', Bool)
    p = I.fresh('any prefix', Str)
    I.assume(z3.Implies(z3.Not(some), z3.Not(nhas(p))))

    def dicts(I, fr):
        ds = [x for x in fr.env.values() if isinstance(x, Ref)
              and isinstance(I.cell(x), HDict)]
        if len(ds) != 1:
            raise Unsupported('dictionaries')
        return ds[0]

    def before(I, fr, w):
        d = st['d'] = dicts(I, fr)
        w.ok('starts with nothing', not I.cell(d).entries
             and I.cell(d).base is None)

    def forget(I, fr, w):
        I.cell(st['d']).base = new

    def step(I, fr):
        key, val = rule.cur.items
        w.ok('the dictionary is kept', dicts(I, fr) == st['d']
             and I.cell(st['d']).base is new)
        es = I.cell(st['d']).entries
        pre = strval('xmlns:')
        if I.branch(z3.PrefixOf(pre, key.t)):
            w.ok('a declaration is noted', len(es) == 1
                 and es[0][0] is None)
            w.ok('the prefix declared', z3.Concat(pre, I.term(
                es[0][1], 'str')) == key.t)
            w.ok('the namespace declared', I.eq_term(es[0][2], val))
            I.x.cover(I, 'declaration')
        else:
            w.ok('other attributes bind nothing', not es)
            I.x.cover(I, 'other attribute')
    rule = All(attrs, w, forget, step,
               writes=lambda I, w: [('dict', st['d'].addr)])
    rule.before = before
    I.x.rule = rule
    try:
        I.call(I.getattr(obj, 'scan_xmlns'), [attrs])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    f = I.cell(obj).fields
    c = I.cell(stack)
    w.ok('the bindings before are put aside', f['nsstack'] == stack
         and c.base is sbase and [x for _, x in c.items] == [old])
    w.ok('the attributes are read', rule.whole)
    now = I.cell(f['nsdict'])
    w.ok('bindings are a mapping', isinstance(now, HDict)
         and isinstance(now.base, Map) and not now.entries)
    w.ok('a declaration binds its prefix', now.base.now(p) == z3.Or(
        has(p), nhas(p)))
    want = Union([(nhas(p), new.val(p)), (z3.Not(nhas(p)), m.val(p))])
    w.ok('other bindings stay', z3.Implies(now.base.now(p), as_bool(
        I.eq_term(now.base.val(p), want))))
    w.ok('the bindings before are left alone', I.cell(old).base is m
         and not m.gone)
    I.x.cover(I, 'ends normally')


def pop(I):
    from zope.tal.htmltalparser import HTMLTALParser as P
    w = Scene(I, 'pop_xmlns')
    top = I.fobj('bindings before')
    sbase = SymSeq('nsstack', I.fint('depth').t, lambda i: I.fobj('outer'))
    stack = I.alloc(HList(base=sbase))
    I.cell(stack).items.append((None, top))
    obj = I.new_obj(P, {'nsdict': I.fobj('bindings'), 'nsstack': stack})
    try:
        I.call(I.getattr(obj, 'pop_xmlns'), [])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    f, c = I.cell(obj).fields, I.cell(stack)
    w.ok('the bindings before hold again', I.same(f['nsdict'], top))
    w.ok('they are taken off', f['nsstack'] == stack and c.base is sbase
         and not c.items)
    I.x.cover(I, 'ends normally')


# ------------------------------------------------------------- attributes
def roles_of(fn):
    """Names of the variables returned."""
    tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    rs = [n for n in ast.walk(tree) if isinstance(n, ast.Return)]
    if len(rs) != 1 or not isinstance(rs[0].value, ast.Tuple) or len(
            rs[0].value.elts) != 5 or not all(
            isinstance(e, ast.Name) for e in rs[0].value.elts):
        raise Unsupported('what is returned')
    return [e.id for e in rs[0].value.elts]


def process(I, P, html):
    from zope.tal.taldefs import I18NError, METALError, TALError
    w = Scene(I, P.__name__ + '.process_ns')
    attrs, n = attribute_list(I, 'attrs', html)
    base = z3.Function('base name', Str, Str)
    fixed = z3.Function('name as written', Str, Str)
    knd = z3.Function('namespace', Str, Int)
    # 0 none, 1..3 directives, 4 another one, 5 declaration (HTML)
    words = (Py(0 if html else None),) + tuple(Py(k) for k in KINDS) + (
        (OTHER, Py('xmlns')) if html else (Py('x'),))

    def fixname(I, name, **kw):
        t = I.term(name, 'str')
        I.assume(z3.And(knd(t) >= 0, knd(t) < len(words)))
        return Tup((name if html else Sym('str', fixed(t), str),
                    Sym('str', base(t), str),
                    Union([(knd(t) == i, words[i])
                           for i in range(len(words))])))
    I.x.contracts[P.fixname] = bare(fixname)
    I.x.contracts[P.getpos] = lambda I, **kw: Tup((I.fint('line'),
                                                   I.fint('offset')))
    obj = I.new_obj(P, {})
    tag = I.fstr('tag')
    rn, rlist, rtal, rmetal, ri18n = roles_of(P.process_ns)
    names = {1: rtal, 2: rmetal, 3: ri18n}
    st = {}
    seen = {i: z3.Function('seen %d' % i, Str, Bool) for i in names}

    def before(I, fr, w):
        st['l'] = fr.env[rlist]
        st['d'] = {i: fr.env[v] for i, v in names.items()}
        w.ok('no attributes at first', not I.cell(st['l']).items
             and I.cell(st['l']).base is None)
        w.ok('no directives at first', all(
            not I.cell(d).entries and I.cell(d).base is None
            for d in st['d'].values()) and len(
                {d.addr for d in st['d'].values()}) == 3)

    def forget(I, fr, w):
        k = I.fint('nattrs')
        I.assume(k.t >= 0)
        c = I.cell(st['l'])
        st['base'] = c.base = SymSeq('sofar', k.t, lambda i: I.fobj('item'))
        st['maps'] = {}
        for i, d in st['d'].items():
            v = z3.Function('value %d' % i, Str, Str)
            m = st['maps'][i] = I.cell(d).base = Map(
                names[i], seen[i], lambda k, v=v: Sym('str', v(k), str))
            m.some = I.fresh('some ' + names[i], Bool)

    def here(I):
        """(namespace that counts, key term) of the attribute at hand"""
        k = rule.cur.items[0].t
        a, b = knd(k), knd(tag.t)
        return z3.If(a != 0, a, b), k

    def step(I, fr):
        ns, k = here(I)
        key, val = rule.cur.items
        w.ok('lists are kept', fr.env[rlist] == st['l'] and I.cell(
            st['l']).base is st['base'] and all(
                fr.env[v] == st['d'][i] and I.cell(
                    st['d'][i]).base is st['maps'][i]
                for i, v in names.items()))
        new = items_of(I.cell(st['l']))
        w.ok('one attribute', len(new) == 1 and isinstance(new[0], Tup))
        it = new[0].items
        w.ok('name of the attribute', I.eq_term(it[0], key if html else Sym(
            'str', fixed(k), str)))
        w.ok('value of the attribute', I.eq_term(it[1], val))
        d = None
        for i in range(len(words)):
            if I.branch(ns == i):
                d = i
                break
        # marked: directives, and in HTML their declarations
        if d in (1, 2, 3, 5):
            w.ok('a directive is marked', len(it) == 3
                 and I.eq_term(it[2], words[d]))
        else:
            w.ok('another attribute is not marked', len(it) == 2)
        for i in names:
            es = I.cell(st['d'][i]).entries
            if i != d:
                w.ok('no directive of another namespace', not es)
                continue
            w.ok('a directive is noted', len(es) == 1 and es[0][0] is None)
            w.ok('name of the directive', I.eq_term(
                es[0][1], Sym('str', base(k), str)))
            v = es[0][2]
            if html and i != 2:
                want = [(g, Py('')) if isinstance(x, Py) else (g, x)
                        for g, x in val.alts]
                want = Union(want)
            else:
                want = val
            w.ok('value of the directive', I.eq_term(v, want))
            if html:
                w.ok('a directive given twice is rejected', z3.Not(
                    seen[i](base(k))))
        I.x.cover(I, 'namespace %s' % words[d].v)
    rule = All(attrs, w, forget, step, writes=lambda I, w: [
        ('list', st['l'].addr)] + [('dict', d.addr)
                                   for d in st['d'].values()])
    rule.before = before
    I.x.rule = rule
    try:
        r = I.call(I.getattr(obj, 'process_ns'), [tag, attrs])
    except SymRaise as e:
        w.ok('an error for HTML only', bool(html and st))
        ns, k = here(I)
        w.ok('rejected only if given twice', z3.Or(*[z3.And(
            ns == i, seen[i](base(k)), z3.BoolVal(e.exc.cls is c))
            for i, c in ((1, TALError), (2, METALError), (3, I18NError))]))
        I.x.cover(I, 'given twice')
        return
    w.ok('five results', isinstance(r, Tup) and len(r.items) == 5
         and rule.whole)
    w.ok('name of the element', I.eq_term(r.items[0], tag if html else Sym(
        'str', fixed(tag.t), str)))
    w.ok('the attributes', r.items[1] == st['l'] and I.cell(
        st['l']).base is st['base'] and not I.cell(st['l']).items)
    for i in names:
        c = I.cell(r.items[i + 1])
        w.ok('the directives', r.items[i + 1] == st['d'][i]
             and c.base is st['maps'][i])
        if i != 1:
            w.ok('no more directives', not c.entries)
    es = I.cell(st['d'][1]).entries
    own = z3.And(knd(tag.t) >= 1, knd(tag.t) <= 3)
    w.ok('an element of a directive namespace is marked', own == bool(es)
         if not es or es[0][0] is None else False)
    if es:
        w.ok('mark of the element', len(es) == 1 and I.eq_term(
            es[0][1], Py('tal tag')))
        w.ok('namespace of the element', z3.And(*[
            z3.Implies(knd(tag.t) == i, as_bool(I.eq_term(
                es[0][2], words[i]))) for i in names]))
        I.x.cover(I, 'directive element')
    I.x.cover(I, 'ends normally')


def html_process(I):
    from zope.tal.htmltalparser import HTMLTALParser
    process(I, HTMLTALParser, True)


def xml_process(I):
    from zope.tal.talparser import TALParser
    process(I, TALParser, False)


# ---------------------------------------------------- XML: declarations
def declarations(I):
    """xmlnsattrs: the declarations made on this element."""
    from zope.tal.talparser import TALParser as P
    w = Scene(I, 'xmlnsattrs')
    n = I.fint('declarations')
    I.assume(n.t >= 0)
    pre = z3.Function('prefix', Int, Str)
    nop = z3.Function('default', Int, Bool)
    uri = z3.Function('uri', Int, Str)

    def at(i):
        return Tup((Union([(nop(i), Py(None)),
                           (z3.Not(nop(i)), Sym('str', pre(i), str))]),
                    Sym('str', uri(i), str)))
    decl = I.alloc(HList(base=SymSeq('declared', n.t, at), frozen=True))
    obj = I.new_obj(P, {'nsNew': decl})
    st = {}

    def lists(I, fr):
        ls = [x for x in fr.env.values() if isinstance(x, Ref)
              and isinstance(I.cell(x), HList) and x != decl]
        if len(ls) != 1:
            raise Unsupported('lists')
        return ls[0]

    def before(I, fr, w):
        st['l'] = lists(I, fr)
        w.ok('starts with nothing', not I.cell(st['l']).items
             and I.cell(st['l']).base is None)

    def forget(I, fr, w):
        k = I.fint('done')
        I.assume(k.t >= 0)
        st['base'] = I.cell(st['l']).base = SymSeq(
            'done', k.t, lambda i: I.fobj('item'))

    def step(I, fr):
        k = z3.simplify(rule.k - 1)
        w.ok('list is kept', lists(I, fr) == st['l']
             and I.cell(st['l']).base is st['base'])
        new = items_of(I.cell(st['l']))
        w.ok('one attribute', len(new) == 1 and isinstance(new[0], Tup))
        it = new[0].items
        none = z3.Or(nop(k), pre(k) == strval(''))
        name = z3.If(none, strval('xmlns'), z3.Concat(
            strval('xmlns:'), pre(k)))
        w.ok('name of the declaration', I.term(it[0], 'str') == name)
        w.ok('namespace declared', I.eq_term(it[1], Sym('str', uri(k), str)))
        directive = z3.Or(*[c for c, _ in kind_of(uri(k))])
        if I.branch(directive):
            w.ok('a directive namespace is marked', len(it) == 3
                 and I.eq_term(it[2], Py('xmlns')))
            I.x.cover(I, 'marked')
        else:
            w.ok('another namespace is not marked', len(it) == 2)
            I.x.cover(I, 'not marked')
    rule = All(decl, w, forget, step,
               writes=lambda I, w: [('list', st['l'].addr)])
    rule.before = before
    I.x.rule = rule
    try:
        r = I.call(I.getattr(obj, 'xmlnsattrs'), [])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('the declarations are the result', rule.whole and r == st['l']
         and I.cell(r).base is st['base'] and not I.cell(r).items)
    left = I.cell(obj).fields['nsNew']
    w.ok('declarations are used once', left != decl and not I.cell(
        left).items and I.cell(left).base is None and left != r)
    I.x.cover(I, 'ends normally')


def declare(I):
    """StartNamespaceDeclHandler: a declaration is kept for the element."""
    from zope.tal.talparser import TALParser as P
    w = Scene(I, 'StartNamespaceDeclHandler')
    m, has, uri, none = bindings(I, 'uri')
    d = I.alloc(HDict(base=m))
    sb = SymSeq('nsStack', I.fint('depth').t, lambda i: I.fobj('outer'))
    nb = SymSeq('nsNew', I.fint('new').t, lambda i: I.fobj('declared'))
    stack, new = I.alloc(HList(base=sb)), I.alloc(HList(base=nb))
    obj = I.new_obj(P, {'nsStack': stack, 'nsDict': d, 'nsNew': new})
    k = I.decide(4)
    p = I.fstr('prefix') if k % 2 else Py(None)
    u = I.fstr('uri') if k // 2 else Py(None)
    try:
        I.call(I.getattr(obj, 'StartNamespaceDeclHandler'), [p, u])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    f, c = I.cell(obj).fields, I.cell(new)
    w.ok('the declaration is kept', f['nsNew'] == new and c.base is nb
         and len(c.items) == 1)
    it = c.items[0][1]
    w.ok('prefix and namespace', isinstance(it, Tup) and len(it.items) == 2
         and I.same(it.items[0], p) and I.eq_term(
             it.items[1], u if isinstance(u, Sym) else Py('')))
    I.x.cover(I, 'ends normally')


# --------------------------------------------------------- XML: elements
class Gen(Opaque):
    name = 'gen'

    def __init__(self, w):
        self.w = w

    def getattr(self, I, o, name):
        return Method(name, o)

    def call(self, I, o, name, args, kw):
        self.w.events.append((name, args, kw))
        return Py(None)


def starting(I):
    from zope.tal.talparser import TALParser as P
    w = Scene(I, 'StartElementHandler')
    n = I.fint('number of attributes')
    I.assume(n.t >= 0)
    f = z3.Function('names and values', Int, Str)
    attrs = I.alloc(HList(base=SymSeq(
        'attrs', 2 * n.t, lambda i: Sym('str', f(i), str)), frozen=True))
    pos = Tup((I.fint('line'), I.fint('offset')))
    I.x.contracts[P.getpos] = lambda I, **kw: pos
    st = {}

    def seq(name):
        k = I.fint('number of ' + name)
        I.assume(k.t >= 0)
        st[name] = SymSeq(name, k.t, lambda i: I.fobj('item'))
        return I.alloc(HList(base=st[name], frozen=True))

    res = [I.fstr('name as written'), seq('fixed'), I.fobj('tal'),
           I.fobj('metal'), I.fobj('i18n')]

    def process_ns(I, name, attrlist):
        c = I.cell(attrlist)
        w.ok('namespaces are looked at once', 'done' not in st)
        st['done'] = True
        w.ok('all attributes are looked at', rule.done and c.base is
             st['base'] and not c.items)
        w.ok('the name is looked at', I.same(name, tag))
        return Tup(tuple(res))

    def xmlnsattrs(I):
        w.ok('declarations are taken once', 'declared' not in st)
        return seq('declared')
    I.x.contracts[P.process_ns] = bare(process_ns)
    I.x.contracts[P.xmlnsattrs] = bare(xmlnsattrs)
    obj = I.new_obj(P, {'gen': I.alloc(HObj(None, {}, model=Gen(w)))})
    tag = I.fstr('name')

    def lists(I, fr):
        ls = [x for x in fr.env.values() if isinstance(x, Ref)
              and isinstance(I.cell(x), HList) and x != attrs]
        if len(ls) != 1:
            raise Unsupported('lists')
        return ls[0]

    def before(I, fr, w):
        st['l'] = lists(I, fr)
        w.ok('no attributes at first', not I.cell(st['l']).items
             and I.cell(st['l']).base is None)

    def forget(I, fr, w):
        k = I.fint('done')
        I.assume(k.t >= 0)
        st['base'] = I.cell(st['l']).base = SymSeq(
            'done', k.t, lambda i: I.fobj('item'))

    def step(I, fr):
        k = z3.simplify(rule.k - 1)
        w.ok('list is kept', lists(I, fr) == st['l']
             and I.cell(st['l']).base is st['base'])
        new = items_of(I.cell(st['l']))
        w.ok('one attribute', len(new) == 1 and isinstance(new[0], Tup)
             and len(new[0].items) == 2)
        a, b = new[0].items
        w.ok('name of the attribute', I.term(a, 'str') == f(2 * k))
        w.ok('value of the attribute', I.term(b, 'str') == f(2 * k + 1))

    class Pairs(Loop):
        done = False

        def start_for(self, I, s, fr, it):
            self.w.ok('all attributes are read', sequence(I, it)[0] == n.t)
            Loop.start_for(self, I, s, fr, it)
            self.done = True
    rule = Pairs(w, forget, step,
                 writes=lambda I, w: [('list', st['l'].addr)])
    rule.before = before
    I.x.rule = rule
    try:
        I.call(I.getattr(obj, 'StartElementHandler'), [tag, attrs])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('the element is started once', len(w.events) == 1
         and w.events[0][0] == 'emitStartElement')
    _, args, kw = w.events[0]
    w.ok('what the element is started with', not kw and len(args) == 6)
    w.ok('by its name as written', I.eq_term(args[0], res[0]))
    for i, what in ((2, 'TAL'), (3, 'METAL'), (4, 'I18N')):
        w.ok('directives: ' + what, I.same(args[i], res[i]))
    c = I.cell(args[1])
    w.ok('declarations, then attributes', isinstance(c, HList)
         and not c.items and getattr(c.base, 'parts', None) == (
             st.get('declared'), [], st['fixed']))
    I.x.cover(I, 'ends normally')


def ending(I):
    from zope.tal.talparser import TALParser as P
    w = Scene(I, 'EndElementHandler')
    fixed = z3.Function('name as written', Str, Str)
    I.x.contracts[P.fixname] = bare(lambda I, name: Tup((Sym(
        'str', fixed(I.term(name, 'str')), str), I.fstr('base'),
        I.fobj('ns'))))
    pos = Tup((I.fint('line'), I.fint('offset')))
    I.x.contracts[P.getpos] = lambda I, **kw: pos
    obj = I.new_obj(P, {'gen': I.alloc(HObj(None, {}, model=Gen(w)))})
    name = I.fstr('name')
    try:
        I.call(I.getattr(obj, 'EndElementHandler'), [name])
    except SymRaise as e:
        return raised(w, e, 'does not fail')
    w.ok('the element is ended once', len(w.events) == 1
         and w.events[0][0] == 'emitEndElement')
    _, args, kw = w.events[0]
    w.ok('by its name as written', bool(args) and I.eq_term(
        args[0], Sym('str', fixed(name.t), str)))
    w.ok('with an end tag', len(args) == 1 and not set(kw) - {'position'})
    I.x.cover(I, 'ends normally')


PARTS = {
    'names (HTML)': (html_fixname, 'html', 'fixname'),
    'names (XML)': (xml_fixname, 'xml', 'fixname'),
    'bindings': (scan, 'html', 'scan_xmlns'),
    'end of bindings': (pop, 'html', 'pop_xmlns'),
    'attributes (HTML)': (html_process, 'html', 'process_ns'),
    'attributes (XML)': (xml_process, 'xml', 'process_ns'),
    'declarations': (declarations, 'xml', 'xmlnsattrs'),
    'declaring': (declare, 'xml', 'StartNamespaceDeclHandler'),
    'starts (XML)': (starting, 'xml', 'StartElementHandler'),
    'ends (XML)': (ending, 'xml', 'EndElementHandler'),
}


def run(c, names, keep=None):
    from zope.tal.htmltalparser import HTMLTALParser
    from zope.tal.talparser import TALParser
    for name in names:
        entry, where, fn = PARTS[name]
        try:
            x = NsExplorer()
            x.reported = None
            x.rule = None
            rule = Rule(x)
            x.loops = [(rule.pick, rule)]
            x.max_seconds = 120
            x.run(judged(entry), name)
        except Exception as e:
            c.undecide('%s: %s: %s' % (name, type(e).__name__, e))
            continue
        c.explorer(x, name, keep, lambda n: 'loop invariant' in n)
        c.under_contract(getattr(
            HTMLTALParser if where == 'html' else TALParser, fn))
        if not x.obligations:
            c.undecide('%s: no obligations' % name)
        elif not x.covers.get('ends normally'):
            c.undecide('%s: no normal end' % name)
    c.assume('expat reports names as "URI name prefix", the declarations of '
             'an element before its start and their ends after its end',
             'str.partition and str.split answer with the parts of the text '
             'around the separator')
