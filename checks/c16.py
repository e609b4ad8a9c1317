"""C16: translation units are sent complete, once, in the right domain."""
import itertools

from checks import bounded, gen
from checks.tmpl import El, Template


def unit(msgid='', kids=(), name='span', **more):
    return El(name, [('i18n:translate', msgid)] + [
        ('i18n:' + k, v) for k, v in more.items()], list(kids))


def inner_pieces():
    yield ['plain text']
    yield ['  a \n  b  ']
    yield ['a\tb']
    yield ['\ta b\t', El('b', [('i18n:name', 'n0')], ['v\tw']), 'c\t\n']
    yield ['x ', El('b', [('i18n:name', 'n0')], ['val']), ' y']
    yield ['x ', El('b', [('i18n:name', 'n0')], ['  v\n w ']), ' y ',
           El('i', [('i18n:name', 'n1')], ['u'])]
    yield [El('b', [('i18n:name', 'n0'), ('tal:content', 'lit:0')], ['d'])]
    yield [El('b', [('i18n:name', 'n0'), ('tal:replace', 'lit:0')], ['d'])]
    yield [El('b', [('i18n:name', 'n0'), ('tal:replace', 'none')], ['d'])]
    yield [El('b', [('i18n:name', 'n0'), ('tal:omit-tag', '')], ['d'])]
    yield [El('b', [('i18n:name', 'n0'), ('tal:condition', 'false')], ['d']),
           'rest']
    yield [El('b', [('i18n:name', 'n0'), ('i18n:translate', '')], ['in']),
           'out']
    yield [El('b', [('i18n:name', 'n0'), ('i18n:translate', 'inid'),
                    ('i18n:domain', 'd2')], ['in']), 'out']
    yield [unit('', ['inner']), 'outer']
    yield [El('b', [('i18n:name', 'n0')], [unit('', [
        'deep ', El('u', [('i18n:name', 'n0')], ['x'])])]), 'outer ',
        El('b', [('i18n:name', 'n1')], ['y'])]
    yield [El('b', [('tal:content', 'lit:0')], ['d']), ' tail']
    yield [El('b', [('tal:repeat', 'i seq:1,2')], [
        El('u', [('i18n:name', 'n0')], ['r'])])]
    yield [El('b', [('title', 't'), ('i18n:attributes', 'title')], ['d'])]
    yield ['a', El('b', [('tal:on-error', 'str:H')], [
        unit('', ['u1 ', El('u', [('i18n:name', 'n0')], [
            'v', El('s', [('tal:content', 'raise')], [])])])]), ' z']
    yield ['a', El('b', [('tal:on-error', 'str:H')], [
        'w', El('u', [('i18n:name', 'n0')], [
            El('s', [('tal:content', 'raise')], [])])]), ' z ',
        El('u', [('i18n:name', 'n1')], ['late'])]
    yield [El('b', [('i18n:name', 'n0'), ('tal:on-error', 'str:H')], [
        El('s', [('tal:content', 'raise')], [])]), ' z']
    yield [El('b', [('tal:content', 'msg:dm:mid')], ['d']), ' tail']
    yield []


def enumerated():
    for xml in (False, True):
        for msgid in ('', 'explicit'):
            for kids in inner_pieces():
                for outer in ('', 'domain', 'unit', 'onerror'):
                    for name in ('span', 'pre'):
                        for data in (False, True):
                            if data and not msgid:
                                continue
                            if name == 'pre' and (outer == 'unit' or any(
                                    'i18n:name' in dict(k.attrs)
                                    for k in kids if not isinstance(k, str))):
                                # white space of names inside pre is open
                                continue
                            more = {'data': 'map:k=v,n0=w'} if data else {}
                            u = unit(msgid, copy(kids), name, **more)
                            if outer == 'domain':
                                u = El('div', [('i18n:domain', 'd1')],
                                       [u, unit('', ['after'])])
                            elif outer == 'unit':
                                u = unit('', ['o ', El('b', [
                                    ('i18n:name', 'n0')], [u]), ' p'])
                            elif outer == 'onerror':
                                u = El('div', [('tal:on-error', 'str:E'),
                                               ('i18n:domain', 'd1')], [u])
                            yield ['A ', u, ' B ', unit('', ['next'])], xml


def copy(nodes):
    return [n if isinstance(n, str) else El(n.name, n.attrs, copy(
        n.children), n.close) for n in nodes]


def replaced():
    """i18n:translate together with content or replace."""
    for xml in (False, True):
        for d, kind, val in itertools.product(
                ('content', 'replace'), ('', 'structure '),
                ('lit:0', 'lit:1', 'none', 'default', 'msg:dm:mid', 'int:3')):
            for extra in ([], [('i18n:domain', 'd1')],
                          [('tal:on-error', 'str:E')]):
                yield [El('span', [('tal:' + d, kind + val),
                                ('i18n:translate', '')] + extra,
                          ['own ', El('b', [('i18n:name', 'n0')], ['x'])]),
                       unit('', ['next'])], xml


def domains():
    """The domain of the unit's own template counts, inside and after
    macros and slots."""
    for xml in (False, True):
        for dm, ds, du, df in itertools.product((0, 1), (0, 1), (0, 1, 2),
                                                (0, 1, 2)):
            def dom(on, name):
                return [('i18n:domain', name if on == 1 else 'default')
                        ] if on else []
            lib = Template([
                El('div', [('metal:define-macro', 'm1')] + dom(dm, 'macro'), [
                    unit('', ['in macro']),
                    El('b', [('metal:define-slot', 's1')] + dom(ds, 'slot'),
                       [unit('', ['default content'])]),
                    unit('', ['still in macro'])])], xml, 'lib')
            for fill in (0, 1):
                kids = [El('b', [('metal:fill-slot', 's1')] + dom(
                    df, 'fill'), [unit('', ['filler'])])] if fill else []
                yield [El('div', dom(du, 'user'), [
                    unit('', ['before']),
                    El('p', [('metal:use-macro', 'lib/m1')], kids),
                    unit('', ['after'])]), unit('', ['end'])], [lib], xml


def nested():
    """The innermost i18n:domain counts, whatever stands next to it."""
    more = [[], [('i18n:target', 'str:x')], [('i18n:source', 'str:y')],
            [('i18n:target', 'str:x'), ('i18n:source', 'str:y')]]
    doms = [[], [('i18n:domain', 'd1')], [('i18n:domain', 'd2')],
            [('i18n:domain', 'default')]]
    for xml in (False, True):
        for m1, d1, m2, d2 in itertools.product(more, doms, more, doms):
            inner = El('b', m2 + d2, ['x', unit('', ['inner'])])
            own = El('i', m2 + d2 + [('i18n:translate', 'own')], ['own'])
            yield [El('div', m1 + d1, [
                inner, unit('', ['between']), own, unit('', ['after'])]),
                unit('', ['end'])], xml


BARE = [
    ('<p i18n:translate>x y</p>', '<p>{x y}</p>'),
    ('<p i18n:translate> x\n y </p>', '<p>{x y}</p>'),
    ('<p i18n:translate>a <b i18n:name="n">c</b> d</p>', '<p>{a ${n} d}</p>'),
    ('<p i18n:translate tal:content="str:v">d</p>', '<p>{v}</p>'),
    ('<p i18n:translate tal:replace="structure str:v">d</p>', '{v}'),
    ('<p i18n:translate=m>d</p>', '<p>{m}</p>'),
    ('<i18n:x translate>d</i18n:x>', '{d}'),
    ('<p><i i18n:translate>a</i><i i18n:translate>b</i></p>',
     '<p><i>{a}</i><i>{b}</i></p>'),
    ('<p i18n:translate>a<br>b</p>', '<p>{a<br />b}</p>'),
]


def bare(c):
    """i18n:translate without a value, as HTML has it."""
    import io
    from checks import diff
    from checks.refsem import Engine, Script
    from zope.tal.talinterpreter import TALInterpreter
    for src, want in BARE:
        out = io.StringIO()
        c.case(('bare', src))
        try:
            e = Engine(Script(translate=lambda m, d, mp, df: '{%s}' % m))
            program, macros = diff.compile_source(src, False, 'f', e)
            TALInterpreter(program, macros, e, out, wrap=0)()
            got = out.getvalue()
        except Exception as x:
            got = repr(x)
        if diff.canon(got) != diff.canon(want):
            c.fail('unit without a message id: output is %r instead of %r'
                   % (got, want), {'template': src})
            return False
    c.stand_in('units without a message id', '%d templates' % len(BARE))
    return True


ASPECTS = ['output', 'translate', 'rest']
VALUES = ['a &amp; b', '<i>x</i>', 'plain']


def check(c):
    n = 12 if c.thorough else 1
    ok = bare(c)
    ok = ok and bounded.templates(c, enumerated(), ASPECTS,
                                  'units with every kind of content',
                                  lits=VALUES,
                                  faults=30 if c.thorough else 6)
    ok = ok and bounded.templates(c, replaced(), ASPECTS,
                                  'translated content and replace',
                                  lits=VALUES, faults=3)
    ok = ok and bounded.templates(c, nested(), ASPECTS,
                                  'domains in domains')
    ok = ok and bounded.templates(c, domains(), ASPECTS,
                                  'domains across macros and slots')
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.I18N, translate=.45, name=.45,
                              onerror=.25)), ASPECTS, 350 * n,
        'random nested units', faults=8)
    ok = ok and bounded.campaign(c, gen.Profile(**bounded.ALL), ASPECTS,
                                 200 * n, 'same with macros', faults=4)
