"""C01: inserted text can never become markup."""
import itertools
import re

from pyvc import fst, strfst
from pyvc.core import Py, Unsupported
from checks import bounded, gen, strfun
from checks.tmpl import El

LITS = ['plain', 'a & b', '<i>x</i>', '"q" \'s\'', '&lt;', 'two\nlines', '',
        'x > y', '&amp;amp;', 'é€', '  sp  ', '<', '>', '&', '&&', '<<>>',
        '&#60;', '&gt', '<!--', '-->', ']]>', '<?xml?>', '\n', 'a\n<b>\n',
        '</span>', '${n}', '&;', 'é<\U0001f600>&', '\t<\r\n>', '0',
        '<script>', "a'b", '%s', '\\1', '<br/>' * 3,
        'a<>&b' * 60, 'x' * 700 + '>&<', '<>&' * 2000]
GOOD = r'(?s)(?:[^&<>]|&(?:amp|lt|gt);)*\Z'
THREE = [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">")]


def undo(t):
    table = dict(THREE)
    return re.sub('&(?:amp|lt|gt);', lambda m: table[m.group()], t)


def enumerated():
    exprs = ['lit:%d' % i for i in range(len(LITS))] + [
        'none', 'default', 'int:0', 'int:7', 'msg:dm:m<&1>', 'true', 'seq:a']
    for xml in (False, True):
        for d, pre, tr, e in itertools.product(
                ('content', 'replace'), ('', 'text ', '  text  '),
                (False, True), exprs):
            a = [('tal:' + d, pre + e)]
            if tr:
                a.append(('i18n:translate', ''))
            yield ['x\n', El('span', a, ['own ', El('b', [
                ('tal:content', 'str:<k>')], ['t']), ' &amp; c']), 'y'], xml
        for e in exprs:
            # error replacement, repetition, inside a translation unit
            yield [El('span', [('tal:on-error', e),
                               ('tal:content', 'raise')], ['z'])], xml
            yield [El('span', [('i18n:translate', '')], [
                'a ', El('b', [('i18n:name', 'n'), ('tal:content', e)],
                         ['own'])])], xml
            yield [El('span', [('tal:repeat', 'i seq:1,2'),
                               ('tal:omit-tag', ''),
                               ('tal:content', e)], ['own'])], xml


def markup_translate(msgid, domain, mapping, default):
    return '<%s:%s&>' % (getattr(msgid, 'domain', None) or domain, msgid)


def writer(c):
    """The text writer: what reaches the stream, for every string."""
    from zope.tal.talinterpreter import TALInterpreter
    good, dec = strfst.regex(GOOD), strfst.subst(THREE)

    def real(s):
        out = []
        obj = object.__new__(TALInterpreter)
        obj._stream_write = out.append
        obj.col = 0
        obj._writeText(s)
        return ''.join(out)

    def confirm(s):
        t = real(s)
        if not re.match(GOOD, t):
            return 'text %r is written %r' % (s, t)
        if undo(t) != s:
            return 'text %r is written %r, which means %r' % (s, t, undo(t))
        return None

    try:
        fn = TALInterpreter._writeText
        from checks import intsym

        def call(I, s):
            return intsym.written_text(I, fn, s)
        x, f = strfun.extract(call, [good, dec], '&<>;ampltg')
        c.under_contract(fn)
        c.inlined |= x.inlined
        al = f.alpha
        bad = strfun.crosscheck(f, real, c.rnd, 3000, '&;a<>')
        if bad:
            raise Unsupported("engine disagrees with CPython on %r" % (bad,))
        strfun.decide(c, '_writeText: no raw markup, for every string',
                      lambda: fst.image_included(f.fst, al, good), confirm)
        strfun.decide(
            c, '_writeText: undoing the escapes gives back the text',
            lambda: fst.equivalent(
                fst.compose(f.fst, fst.regex_sub(al, dec)),
                fst.identity(al)), confirm)
    except (Unsupported, AttributeError) as e:
        c.undecide('_writeText: %s' % e)


def check(c):
    writer(c)
    asp = ['output', 'order']
    n = 12 if c.thorough else 1
    ok = bounded.templates(c, enumerated(), asp, 'one text substitution',
                           lits=LITS, translate=markup_translate)
    prof = gen.Profile(content=.6, replace=.4, structure=.05, message=.2,
                       translate=.2, name=.2, default=.2, onerror=.2)
    ok = ok and bounded.campaign(c, prof, asp, 400 * n,
                                 'templates rich in text substitution',
                                 lits=LITS, faults=2)
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.ALL, content=.5, structure=.05)), asp,
        100 * n, 'same with macros', lits=LITS)
