"""C04: a failure under tal:on-error is completely contained."""
import itertools

from checks import bounded, diff, gen
from checks.refsem import BaseBoom, Boom
from checks.tmpl import El, Template

# what a protected element may contain when the failure comes
INSIDE = {
    'text': lambda k: ['in ', k],
    'define': lambda k: [El('b', [('tal:define', 'x str:in; global g2 str:1')],
                            ['d', k])],
    'loop': lambda k: [El('b', [('tal:repeat', 'x seq:1,2')], ['l', k])],
    'unit': lambda k: [El('b', [('i18n:translate', '')], ['u ', k])],
    'name': lambda k: [El('b', [('i18n:translate', '')], [
        'u ', El('u', [('i18n:name', 'n')], ['n ', k])])],
    'domain': lambda k: [El('b', [('i18n:domain', 'inner')], ['o', k])],
    'omit': lambda k: [El('b', [('tal:omit-tag', '')], ['o', k])],
    'omitexpr': lambda k: [El('b', [('tal:omit-tag', 'true')], ['o', k])],
    'attrs': lambda k: [El('b', [('tal:attributes', 'a str:1')], ['o', k])],
    'handler': lambda k: [El('b', [('tal:on-error', 'raise')], ['o', k])],
    'handled': lambda k: [El('b', [('tal:on-error', 'str:H')], ['o', k])],
    'taltag': lambda k: [El('tal:x', [('define', 'x str:t')], ['o', k])],
    'macro': lambda k: [El('b', [('metal:use-macro', 'lib/m')], [
        El('u', [('metal:fill-slot', 's')], ['f', k])])],
    'deep': lambda k: [El('b', [('metal:use-macro', 'lib/e')], [
        El('u', [('metal:fill-slot', 's'), ('tal:define', 'x str:deep')],
           ['f', k])])],
    'condition': lambda k: [El('b', [('tal:condition', 'true')], ['o', k])],
    'structure': lambda k: [El('b', [
        ('tal:replace', 'structure str:<q><z>1</z></q>'),
        ('tal:attributes', 'a str:1')], []), k],
}
FAILING = [
    ('content', lambda: El('i', [('tal:content', 'raise')], ['no'])),
    ('attr', lambda: El('i', [('tal:attributes', 'a raise')], ['no'])),
    ('attr2', lambda: El('i', [('tal:attributes', 'a str:1; b raise'),
                               ('tal:omit-tag', '')], ['no'])),
    ('struct', lambda: El('i', [('tal:content', 'structure raise')], [])),
    ('macro', lambda: El('i', [('metal:use-macro', 'lib/bad')], [])),
    ('define', lambda: El('i', [('tal:define', 'x str:1; y raise')], [])),
]


def library(xml):
    return Template([
        El('p', [('metal:define-macro', 'm'), ('i18n:domain', 'libdom')],
           ['M', El('q', [('metal:define-slot', 's'),
                          ('tal:define', 'z str:z')], ['S']), 'N']),
        El('p', [('metal:define-macro', 'e'),
                 ('metal:extend-macro', 'lib/m')], [
            El('q', [('metal:fill-slot', 's')], [
                'E', El('q', [('metal:define-slot', 's')], ['T'])])]),
        El('p', [('metal:define-macro', 'bad'), ('tal:define', 'y str:y')],
           ['B', El('q', [('tal:content', 'raise')], [])]),
    ], xml, 'lib')


def probes():
    """What follows: shows variables, domain, units, nesting."""
    return [El('s', [('tal:content', 'var:x')], []),
            El('s', [('tal:content', 'var:error')], []),
            El('s', [('i18n:translate', '')], ['after ', El('u', [
                ('i18n:name', 'n')], ['N'])]),
            El('s', [('tal:content', 'msg:dm:z')], []),
            El('s', [('metal:use-macro', 'lib/m')], [El(
                'u', [('metal:fill-slot', 's'), ('tal:content', 'var:x')],
                [])])]


def enumerated(c):
    keys = sorted(INSIDE)
    combos = [(a,) for a in keys] + list(itertools.product(keys, keys))
    for xml in (False, True):
        for combo in combos:
            for name, bad in FAILING:
                if len(combo) > 1 and name not in ('content', 'macro') \
                        and c.rnd.random() < .7:
                    continue
                kid = bad()
                for k in reversed(combo):
                    nodes = INSIDE[k](kid)
                    kid = El('tal:y', [], nodes) if len(nodes) > 1 \
                        else nodes[0]
                    if not isinstance(kid, El):
                        kid = El('tal:y', [], [kid])
                outer = c.rnd.choice([
                    [], [('i18n:domain', 'outer')], [('i18n:translate', '')],
                    [('tal:define', 'x str:outer')],
                    [('tal:repeat', 'r seq:1,2')]])
                prot = El('div', [('tal:on-error', c.rnd.choice(
                    ['str:E', 'errtype', 'structure str:<w>E</w>',
                     'var:x'])), ('a', 'b')], ['p', kid, 'q'])
                body = [El('b', list(outer), ['0 ', prot] + probes())]
                yield body, [library(xml)], xml


def strip(nodes):
    res = []
    for n in nodes:
        if isinstance(n, str):
            res.append(n)
        else:
            attrs = [(k, v) for k, v in n.attrs if k != 'tal:on-error']
            if attrs != n.attrs and not any(':' in k for k, v in attrs):
                # the tag of an element with directives may be wrapped
                attrs.append(('tal:condition', 'true'))
            res.append(El(n.name, attrs, strip(n.children), n.close))
    return res


def without(w):
    """The templates without tal:on-error."""
    main, libs = [
        [Template(strip(t.nodes[0].children if t.xml else t.nodes), t.xml,
                  t.file) for t in ts] for ts in ([w.main], w.others)]
    return main[0], libs


def unchanged(c, n):
    """When nothing fails, tal:on-error makes no difference."""
    prof = gen.Profile(**dict(bounded.ALL, onerror=.4))
    compared = 0
    for i in range(n):
        w = bounded.Work(c.rnd, prof, c.rnd.random() < .4)
        plain, libs = without(w)
        s = w.script()
        opts = {'wrap': c.rnd.choice([0, c.rnd.randrange(5, 90)]),
                'sourceAnnotations': c.rnd.randrange(2)}
        try:
            a = diff.Run(w.main, s, w.others, opts).go()
            s2 = w.script()
            s2.templates = {t.file: t for t in [plain] + libs}
            b = diff.Run(plain, s2, libs, opts).go()
        except Exception:
            continue
        compared += b.exc is None and w.main.src != plain.src
        # an element with on-error only has a scope of its own otherwise;
        # globals and output must agree
        c.case(('same', bounded.shape(w.main)))
        if b.exc is None and (a.text != b.text or a.exc is not None):
            c.fail('without a failure tal:on-error changes the output: '
                   '%r instead of %r' % (a.exc or a.text, b.text),
                   dict(w.describe(s), options=opts))
            return False
    c.stand_in('no failure: output as without tal:on-error, for various '
               'wrap widths, with and without source annotations',
               '%d random templates' % compared)
    return True


def malformed(c):
    """Failures inside the interpreter itself: structure that does not
    parse, unusable macros."""
    import io
    from zope.tal.talinterpreter import TALInterpreter
    from checks.refsem import Engine, Script
    cases = []
    for xml in (False, True):
        for bad in ('</b>', '<b>', '<a tal:x="1"/>', '<br></br>', '<'):
            for d in ('content', 'replace'):
                t = Template([El('div', [('tal:on-error', 'str:E')], [
                    'in', El('b', [('tal:define', 'x str:1')], [
                        El('i', [('i18n:translate', '')], ['u ', El('u', [
                            ('tal:' + d, 'structure lit:0')], [])])])])]
                    + probes(), xml, 'main')
                cases.append((t, bad, {}))
    for t, bad, opts in cases:
        lib = library(t.xml)
        s = Script([bad], templates=[t, lib])
        try:
            a = diff.Run(t, s, [lib], opts).go()
        except Exception:
            continue
        clean = Template([El('div', [], ['E'])] + probes(), t.xml, 'main')
        b = diff.RefRun(clean, Script([bad], templates=[clean, lib])).go()
        c.case(('malformed', bad, t.xml))
        # some of these are accepted by the parser; then nothing fails
        if a.exc is None and '>E<' not in a.text:
            continue
        if a.exc is not None or diff.canon(a.text) != diff.canon(b.text):
            c.fail('malformed structure under on-error: %r instead of %r' % (
                a.exc or a.text, b.text), diff.describe(t, [lib], s, opts))
            return False
    c.stand_in('failures raised by the interpreter itself',
               '%d enumerated templates' % len(cases))
    return True


ASPECTS = ['output', 'order', 'globals', 'file', 'rest']


def error_info(w, run, ref, s, o):
    """'error' is made from the exception raised, once per handled error."""
    for t, pos in run.engine.errors:
        if not issubclass(t, (Boom, BaseBoom)) and t.__name__ != 'METALError':
            return 'error describes %s' % t.__name__
    return None


def check(c):
    n = 10 if c.thorough else 1
    ok = bounded.templates(c, enumerated(c), ASPECTS,
                           'a failing element below one or two enclosing '
                           'constructs inside tal:on-error',
                           post=error_info)
    ok = ok and malformed(c)
    ok = ok and bounded.campaign(
        c, gen.Profile(onerror=.5, fail=.05), ASPECTS, 150 * n,
        'tal:on-error, every fault position', faults=20, post=error_info)
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.ALL, onerror=.4)), ASPECTS, 150 * n,
        'tal:on-error with macros and translation, every fault position',
        faults=30, post=error_info)
    ok = ok and unchanged(c, 200 * n)
