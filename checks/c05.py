"""C05: scopes and translation contexts are balanced in every rendering."""
from checks import bounded, combos, diff, gen, progs
from checks.tmpl import El


def static(w, run, ref, s, o):
    for f, (program, macros) in w.codes.items():
        r = progs.check_program(program, macros)
        if r:
            return 'compiled block of %s %s: %r' % (f, r[0], r[1])
    if run.exc is None and run.engine.vars.scopes != [
            dict(run.engine.vars.scopes[0])]:
        return 'scopes left open'
    return None


ASPECTS = ['scopes', 'rest', 'output']


OWN = [
    ('<p tal:define="x string:a"><b tal:replace="x"/></p>'
     '<i tal:condition="exists:x">left</i>', '<p>a</p>'),
    ('<p tal:define="x string:a"><q tal:define="x string:b">'
     '<b tal:replace="x"/></q><b tal:replace="x"/></p>',
     '<p><q>b</q>a</p>'),
    ('<p tal:define="x string:a"><q tal:define="global x string:b; '
     'y string:c"><b tal:replace="y"/></q></p><b tal:replace="x"/>'
     '<i tal:condition="exists:y">left</i>', '<p><q>c</q></p>b'),
    ('<p tal:define="x string:a"><q tal:repeat="x python:(1, 2)">'
     '<b tal:replace="x"/></q><b tal:replace="x"/></p>',
     '<p><q>1</q><q>2</q>a</p>'),
    ('<p tal:define="x string:a; y string:b"><q><b tal:replace="x"/>'
     '<u tal:define="z y"><b tal:replace="z"/></u></q>'
     '<i tal:condition="exists:z">left</i><b tal:replace="y"/></p>',
     '<p><q>a<u>b</u></q>b</p>'),
    ('<p tal:on-error="string:e"><q tal:define="x string:a">'
     '<b tal:content="none/such"/></q></p>'
     '<i tal:condition="exists:x">left</i>', '<p>e</p>'),
]


def own_engine(c):
    """The same with the engine zope.tal comes with."""
    import io
    from zope.tal.dummyengine import DummyEngine
    from zope.tal.talinterpreter import TALInterpreter
    for src, want in OWN:
        c.case(('own', src))
        out = io.StringIO()
        try:
            e = DummyEngine()
            program, macros = diff.compile_source(src, False, 'f', e)
            TALInterpreter(program, macros, e, out, wrap=0)()
            got = out.getvalue()
        except Exception as x:
            got = repr(x)
        if got != want:
            c.fail('definitions do not end with their element: output is %r '
                   'instead of %r' % (got, want), {'template': src})
            return False
    c.stand_in('definitions kept by DummyEngine', '%d templates' % len(OWN))
    return True


def own_attributes():
    """attrs of an element, looked up after its children."""
    for xml in (False, True):
        for gap in ('', ' ', '\n'):
            for omit in ([], [('tal:omit-tag', '')]):
                for d in ([('tal:content', 'str:x')],
                          [('tal:define', 'y attr:title')],
                          [('tal:repeat', 'q seq:1,2')], []):
                    kid = El('b', [('title', 'inner')] + d, ['t'])
                    yield [El('p', [('title', 'outer'),
                                    ('tal:repeat', 'r seq:1,2,3'),
                                    ('tal:attributes', 'a attr:title')] + omit,
                              [gap, kid, gap, kid])], [], xml
                    bad = El('i', [('title', 'bad'),
                                   ('tal:content', 'raise')], [])
                    yield [El('p', [('title', 'outer'),
                                    ('tal:on-error', 'attr:title')] + omit,
                              [gap, kid, gap, bad])], [], xml


def check(c):
    n = 12 if c.thorough else 1
    ok = own_engine(c)
    ok = ok and bounded.templates(c, own_attributes(), ASPECTS,
                                  'attrs looked up after the children')
    ok = ok and bounded.templates(c, combos.pairs(c.rnd), ASPECTS,
                                  'up to three directives on one element',
                                  post=static, faults=2)
    ok = ok and bounded.templates(c, combos.cases(c.rnd, 3000 * n), ASPECTS,
                                  'random directive combinations',
                                  post=static)
    ok = ok and bounded.campaign(
        c, gen.Profile(**bounded.ALL), ASPECTS, 200 * n,
        'templates with everything', faults=4, post=static)
    ok = ok and bounded.campaign(
        c, gen.Profile(newline=.9, define=.6), ASPECTS, 300 * n,
        'templates with line breaks before scoped elements', post=static)
    for opts in ({'tal': 0}, {'metal': 0}, {'tal': 0, 'metal': 0},
                 {'showtal': 1}):
        what = ' '.join('%s=%s' % o for o in sorted(opts.items()))
        ok = ok and bounded.campaign(
            c, gen.Profile(**dict(bounded.ALL, newline=.5, define=.4)),
            ['scopes', 'rest'], 60 * n, 'templates rendered with ' + what,
            opts=opts, faults=1, post=static)
