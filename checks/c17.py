"""C17: the engine always knows the right source file and position."""
import itertools

from checks import bounded, gen
from checks.tmpl import El, Template


def probe(s='p'):
    return El('i', [('tal:content', 'str:' + s)], ['x'])


def boom():
    return El('u', [('tal:content', 'raise')], [])


def handled(kids):
    return El('b', [('tal:on-error', 'err')], kids)


def enumerated():
    """Two libraries using each other, with fillers, errors, loops."""
    # file names that look alike
    for xml, f1, f2 in ((False, 'lib', 'lib2'), (True, 'lib', 'lib2'),
                        (False, 'x/main', 'y/main'), (True, 'Main', 'MAIN')):
        for what in itertools.product(('plain', 'error', 'loop'),
                                      ('default', 'filled', 'filled-error'),
                                      ('direct', 'nested', 'extend'),
                                      ('after', 'handled')):
            body, slot, use, tail = what
            lib2 = Template(['\n\n', El('q', [
                ('metal:define-macro', 'k'), ('tal:define', 'x str:1')], [
                '\n', probe('k1'), El('q', [('metal:define-slot', 's')], [
                    probe('kd')]), probe('k2'), '\n'])], xml, f2)
            inner = [probe('m1')]
            if body == 'error':
                inner.append(handled([probe('e'), boom()]))
            elif body == 'loop':
                inner.append(El('b', [('tal:repeat', 'i seq:1,2')], [
                    probe('l')]))
            if use == 'nested':
                inner.append(El('b', [('metal:use-macro', f2 + '/k')], [
                    El('q', [('metal:fill-slot', 's')], [probe('mf')])]))
            inner.append(El('q', [('metal:define-slot', 's')],
                            [probe('md')]))
            inner.append(probe('m2'))
            macros = [El('p', [('metal:define-macro', 'm')], inner)]
            if use == 'extend':
                macros = [El('p', [('metal:define-macro', 'm'),
                                   ('metal:extend-macro', f2 + '/k')], [
                    El('q', [('metal:fill-slot', 's')], [
                        probe('mf'), El('q', [('metal:define-slot', 's')],
                                        [probe('md')])])])]
            lib = Template(['\n'] + macros, xml, f1)
            kids = []
            if slot == 'filled':
                kids = [El('q', [('metal:fill-slot', 's')], [
                    probe('f'), El('b', [('metal:use-macro', f2 + '/k')],
                                   [])])]
            elif slot == 'filled-error':
                kids = [El('q', [('metal:fill-slot', 's')], [probe('f'),
                                                             boom()])]
            nodes = ['t\n', El('b', [('metal:use-macro', f1 + '/m')], kids),
                     '\n ', probe('z')]
            if tail == 'handled' or slot == 'filled-error':
                nodes = ['t\n', handled(nodes), '\n', probe('y'),
                         El('b', [('tal:attributes', 'a str:1'),
                                  ('tal:on-error', 'err')], [boom()])]
            yield nodes, [lib2, lib], xml


ASPECTS = ['output', 'evals', 'file', 'position']


def check(c):
    n = 12 if c.thorough else 1
    ok = bounded.templates(c, enumerated(), ASPECTS,
                           'macros of two libraries, slots, handled errors',
                           faults=40 if c.thorough else 15)
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.MACRO, macros=.6, onerror=.35,
                              errpos=.7)), ASPECTS, 300 * n,
        'random macro uses with handled errors', faults=10)
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.ALL, onerror=.3, errpos=.7)), ASPECTS,
        300 * n, 'all directives', faults=5)
    c.assume('templates are compiled with a source file name')
