"""C02: dynamic attribute values are always quoted, escaped and complete."""
import itertools
import re

from pyvc import fst, strfst
from pyvc.core import Py, Unsupported
from checks import bounded, gen, strfun
from checks.refsem import BOOL_ATTRS
from checks.tmpl import El

LITS = ['plain', 'a & b', '<i>x</i>', '"q" \'s\'', '&lt;', 'two\nlines', '',
        'x > y', '&amp;amp;', 'é€', '  sp  ', '&quot;', "it's", '"', '<', '>',
        '&', '&#34;', '"onload="x', 'a;b', '--><', ']]>', '\t', '0',
        'a<>&"b' * 60, 'x' * 700 + '>&<"', '"<>&' * 2000]
ESCAPED = r'(?s)"(?:[^&<>"]|&(?:amp|lt|gt|quot|apos|#\d+|#x[0-9a-f]+);)*"\Z'
FIVE = [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", '"'),
        ("&#34;", '"'), ("&apos;", "'"), ("&#39;", "'"), ("&#x27;", "'")]
NAMES = ('a', 'id', 'new', 'checked', 'ID', 'Checked', 'selected',
         'xml:lang', 'data-x')


def dynamic_names(w):
    names = set()
    from checks.tmpl import elements
    for t in [w.main] + w.others:
        for e in elements(t.nodes):
            for k in ('tal:attributes', 'i18n:attributes'):
                for p in (dict(e.attrs).get(k) or '').split(';'):
                    if p.strip():
                        names.add(p.split()[0] if t.xml
                                  else p.split()[0].lower())
    return names


_attr = re.compile(r'\s+([^\s=<>"/]+)(?:="([^"]*)")?')
_ok = re.compile(r'(?s)(?:[^&<>]|&(?:amp|lt|gt|quot|apos|#\d+|#x[0-9a-f]+);)*'
                 r'\Z')


def form(w, run, ref, s, o):
    """Every start tag is well-formed and names no attribute twice."""
    if run.exc is not None:
        return None
    from checks.diff import TAG
    for m in TAG.finditer(run.text):
        seen = set()
        for a in _attr.finditer(m.group(3)):
            if a.group(1) in seen:
                return 'attribute %s twice in %r' % (a.group(1), m.group())
            seen.add(a.group(1))
            if a.group(2) is not None and not _ok.match(a.group(2)):
                return 'value of %s badly escaped in %r' % (
                    a.group(1), m.group())
    return None


def enumerated():
    exprs = ['lit:%d' % i for i in range(len(LITS))] + [
        'none', 'default', 'true', 'false', 'int:0', 'int:7', 'msg:dm:m<1>']
    for xml in (False, True):
        for name in NAMES:
            for static in ('absent', None, 'st', 'a & "b" <c>'):
                if static is None and xml:
                    continue
                for expr in exprs:
                    for i18n in ('', 'plain'):
                        yield element(name, static, expr, i18n, xml)
                for i18n in ('plain', 'msgid'):
                    yield element(name, static, None, i18n, xml)
        for name in sorted(BOOL_ATTRS) + ['value', 'type', 'href', 'alt']:
            for name in (name, name.upper()):
                for static in ('absent', 'st'):
                    for expr in ('true', 'false', 'default', 'none',
                                 'lit:0', 'lit:6'):
                        yield element(name, static, expr, '', xml)


def element(name, static, expr, i18n, xml, extra=()):
    a = [('x', '1')]
    if static != 'absent':
        a.append((name, static))
    if expr is not None:
        a.append(('tal:attributes', name + ' ' + expr))
    if i18n:
        a.append(('i18n:attributes',
                  name + (' mid' if i18n == 'msgid' else '')))
    a.append(('y', '2'))
    return [El('span', a, ['t'])], xml


def markup_translate(msgid, domain, mapping, default):
    return '<"%s:%s&' % (getattr(msgid, 'domain', None) or domain, msgid)


def check(c):
    quoting(c)
    asp = ['output', 'order']
    n = 12 if c.thorough else 1
    ok = bounded.templates(c, enumerated(), asp,
                           'one dynamic attribute', lits=LITS,
                           translate=markup_translate, post=form)
    prof = gen.Profile(attributes=.9, i18nattrs=.3, message=.2, default=.2,
                       plain=.1, replace=.2, structure=.5, translate=.1,
                       bool=.4)
    ok = ok and bounded.campaign(c, prof, asp, 400 * n,
                                 'templates rich in dynamic attributes',
                                 post=form, lits=LITS,
                                 translate=None)
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.ALL, attributes=.6)), asp, 100 * n,
        'same with macros', post=form, lits=LITS)


def quoting(c):
    from zope.tal import taldefs
    fn = taldefs.quote
    shape, dec = strfst.regex(ESCAPED), strfst.subst(FIVE)

    def undo(t):
        table = dict(FIVE)
        return re.sub('|'.join(map(re.escape, table)),
                      lambda m: table[m.group()], t)

    def confirm(s):
        t = fn(s)
        if not re.match(ESCAPED, t):
            return 'quote(%r) is %r' % (s, t)
        if undo(t[1:-1]) != s:
            return 'quote(%r) is %r, which means %r' % (s, t, undo(t[1:-1]))
        return None

    try:
        x, f = strfun.extract(lambda I, s: I.call(Py(fn), [s]),
                              [shape, dec], '&<>";#ampltgquos\'x0123')
        c.under_contract(fn)
        c.inlined |= x.inlined
        al = f.alpha
        bad = strfun.crosscheck(f, fn, c.rnd, 3000, '&;#xa1"<')
        if bad:
            raise Unsupported("engine disagrees with CPython on %r" % (bad,))
        strfun.decide(c, 'quote: quoted, no raw markup, for every string',
                      lambda: fst.image_included(f.fst, al, shape), confirm)
        strfun.decide(
            c, 'quote: undoing the escapes gives back the value',
            lambda: fst.equivalent(
                fst.compose(f.fst, fst.regex_sub(al, dec)),
                fst.affix(al, '"', '"')), confirm)
    except (Unsupported, AttributeError) as e:
        c.undecide('quote: %s' % e)
