"""C10: macro use is guarded and leaves no trace."""
import copy

from checks import bounded, diff, gen
from checks.refsem import Boom, Script
from checks.tmpl import El, Template


def bad_macros(lib_code, other_code):
    """Macros that must be refused, by name."""
    from zope.tal.taldefs import TAL_VERSION
    m = lib_code[1]['m']
    res = {}
    for v in ('1.5', '1.60', '', None, 1.6, TAL_VERSION + ' ', '1.7', '2.0',
              '1.4', 'x'):
        if v != TAL_VERSION:
            res['v:%r' % (v,)] = [('version', v)] + list(m[1:])
    res['nov'] = list(m[1:])
    res['empty'] = []
    res['one'] = [m[0]]
    res['late'] = [m[1], m[0]] + list(m[2:])
    res['other'] = other_code[1]['m']
    res['nomode'] = [m[0]] + list(m[2:])
    res['badmode'] = [m[0], ('mode', 'sgml')] + list(m[2:])
    res['nonemode'] = [m[0], ('mode', None)] + list(m[2:])
    res['modex'] = [m[0], ('modex', m[1][1])] + list(m[2:])
    res['versionx'] = [('versionx', m[0][1])] + list(m[1:])
    return res


def refused(c):
    for xml in (False, True):
        def lib(x):
            return Template([El('p', [('metal:define-macro', 'm')], [
                'M', El('q', [('metal:define-slot', 's')], ['S'])])], x,
                'lib')
        e = diff.Engine(Script())
        codes = {x: diff.compile_template(lib(x), e) for x in (False, True)}
        good = codes[xml]
        special = bad_macros(codes[xml], codes[not xml])
        for name in special:
            for caught in (False, True):
                for directive in ('use', 'extend'):
                    use = El('b', [('metal:use-macro', name)], [
                        El('i', [('metal:fill-slot', 's')], ['F'])])
                    if directive == 'extend':
                        use = El('b', [('metal:define-macro', 'x'),
                                       ('metal:extend-macro', name)], [])
                    nodes = [El('div', [('tal:on-error', 'errtype')]
                                if caught else [], ['in', use, 'out']),
                             El('b', [('metal:use-macro', 'lib/m')], []),
                             El('s', [('tal:content', 'var:macroname')], [])]
                    main = Template(nodes, xml, 'main')
                    s = Script(special=special, templates=[main, lib(xml)])
                    try:
                        run = diff.Run(main, s, [lib(xml)])
                        run.codes['lib'] = good
                        run.go()
                    except Exception as ex:
                        c.fail('cannot compile: %r' % ex,
                               {'template': main.src})
                        return False
                    ref = diff.RefRun(main, Script(
                        special=special, templates=[main, lib(xml)])).go()
                    ref.text = ref.text.replace('MetalError', 'METALError')
                    d = diff.compare(run, ref, ['output', 'evals', 'rest'])
                    if d is None and not caught and run.text not in (
                            '<root><div>in' if xml else '<div>in',):
                        d = 'macro %s was partly rendered: %r' % (
                            name, run.text)
                    c.case(('refused', name, xml, caught, directive))
                    if d:
                        c.fail('macro %s: %s' % (name, d),
                               {'template': main.src, 'macro':
                                special[name], 'mode': xml})
                        return False
    c.stand_in('macros of another version or document type are refused',
               'enumerated version and mode marks')
    return True


def limits(c):
    for xml in (False, True):
        for limit in (1, 2, 3, 5, 100):
            for style in ('self', 'mutual', 'slot', 'extend', 'caught'):
                attr = 'metal:use-macro'
                nodes = {
                    'self': [El('p', [('metal:define-macro', 'a')], [
                        'x', El('b', [('metal:use-macro', 'main/a')], [])])],
                    'mutual': [
                        El('p', [('metal:define-macro', 'a')], [
                            'x', El('b', [('metal:use-macro', 'main/b')],
                                    [])]),
                        El('p', [('metal:define-macro', 'b')], [
                            'y', El('b', [('metal:use-macro', 'main/a')],
                                    [])])],
                    'slot': [El('p', [('metal:define-macro', 'a')], [
                        'x', El('q', [('metal:define-slot', 's')], [
                            El('b', [('metal:use-macro', 'main/a')],
                               [])])])],
                    'extend': [El('p', [('metal:define-macro', 'a'),
                                        ('metal:extend-macro', 'main/a')],
                                  [])],
                    'caught': [El('p', [('metal:define-macro', 'a')], [
                        'x', El('b', [('tal:on-error', 'errtype')], [
                            El('b', [('metal:use-macro', 'main/a')],
                               [])])])],
                }[style]
                nodes = nodes + [El('s', [('tal:content', 'var:macroname')],
                                    [])]
                main = Template(nodes, xml, 'main')
                o = {'stackLimit': limit}
                s = Script(templates=[main])
                run = diff.Run(main, s, [], o).go()
                ref = diff.RefRun(main, Script(templates=[main]), o).go()
                ref.text = ref.text.replace('MetalError', 'METALError')
                d = diff.compare(run, ref, ['output', 'evals', 'rest'])
                c.case(('limit', limit, style, xml))
                if d:
                    c.fail('nesting limit %d (%s): %s' % (limit, style, d),
                           diff.describe(main, [], s, o))
                    return False
        # a nesting that fits exactly must be accepted
        for depth in (1, 2, 5):
            nodes = []
            for i in range(depth):
                inner = [] if i == 0 else [
                    El('b', [('metal:use-macro', 'lib/m%d' % (i - 1))], [])]
                nodes.append(El('p', [('metal:define-macro', 'm%d' % i)],
                                ['x'] + inner))
            lib = Template(nodes, xml, 'lib')
            for limit in range(0, depth + 2):
                main = Template([El('b', [('metal:use-macro', 'lib/m%d'
                                           % (depth - 1))], [])], xml, 'main')
                o = {'stackLimit': limit}
                s = Script(templates=[main, lib])
                run = diff.Run(main, s, [lib], o).go()
                ref = diff.RefRun(main, Script(templates=[main, lib]),
                                  o).go()
                d = diff.compare(run, ref, ['output', 'rest'])
                c.case(('exact', depth, limit, xml))
                if d:
                    c.fail('nesting of %d with limit %d: %s' % (
                        depth, limit, d), diff.describe(main, [lib], s, o))
                    return False
    c.stand_in('nesting limit', 'limits 0..100, five kinds of recursion')
    return True


def check(c):
    n = 10 if c.thorough else 1
    ok = refused(c)
    ok = ok and limits(c)
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.MACRO, macros=.7, onerror=.3)),
        ['output', 'order', 'rest'], 250 * n,
        'random macro libraries, every fault position', faults=20)
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.ALL, macros=.5)),
        ['output', 'rest'], 100 * n, 'same with translation', faults=8)
