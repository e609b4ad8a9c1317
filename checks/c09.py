"""C09: each slot is filled by the filler that belongs to it."""
import itertools

from checks import bounded, gen
from checks.tmpl import El, Template


def chain(xml, fills, redefine, outer_fill, same_names=True):
    """A macro with slots s and t, extended along a chain; `fills` says for
    each extension which slots it fills, `redefine` whether its filler
    offers the slot again."""
    nodes = [El('p', [('metal:define-macro', 'm0')], [
        '0', El('q', [('metal:define-slot', 's')], ['d0s']), '-',
        El('q', [('metal:define-slot', 't')], ['d0t']),
        El('tal:c', [('content', 'var:macroname')], [])])]
    for i, f in enumerate(fills):
        kids = []
        for slot in f:
            inner = ['f%d%s' % (i + 1, slot)]
            if redefine[i]:
                inner.append(El('q', [('metal:define-slot', slot)],
                                ['r%d%s' % (i + 1, slot)]))
            kids.append(El('q', [('metal:fill-slot', slot)], inner))
        nodes.append(El('p', [('metal:define-macro', 'm%d' % (i + 1)),
                              ('metal:extend-macro', 'lib/m%d' % i)], kids))
    last = 'lib/m%d' % len(fills)
    # a macro which uses the chain without filling anything
    nodes.append(El('p', [('metal:define-macro', 'u')], [
        'U', El('b', [('metal:use-macro', last)], []), 'V',
        El('q', [('metal:define-slot', 's')], ['us'])]))
    # a macro whose filler contains a use and a slot of its own
    nodes.append(El('p', [('metal:define-macro', 'w')], [
        'W', El('b', [('metal:use-macro', last)], [
            El('q', [('metal:fill-slot', 's')], [
                'wf', El('q', [('metal:define-slot', 's')], ['ws']),
                El('i', [('metal:use-macro', 'lib/m0')], [
                    El('q', [('metal:fill-slot', 't')], [
                        'wt', El('q', [('metal:define-slot', 't')],
                                 ['wtt'])])])])])]))
    return Template(nodes, xml, 'lib'), last


def enumerated(c):
    subsets = [(), ('s',), ('t',), ('s', 't')]
    for depth in range(4):
        for fills in itertools.product(subsets, repeat=depth):
            for redef in itertools.product((0, 1), repeat=depth):
                if depth == 3 and c.rnd.random() < .8 and not c.thorough:
                    continue
                for outer in subsets:
                    xml = c.rnd.random() < .5
                    for target in ('last', 'u', 'w'):
                        lib, last = chain(xml, fills, redef, outer)
                        kids = [El('i', [('metal:fill-slot', s)],
                                   ['o' + s, El('i', [
                                       ('metal:use-macro', 'lib/m0')], [])])
                                for s in outer]
                        name = last if target == 'last' else 'lib/' + target
                        yield [El('b', [('metal:use-macro', name)], kids),
                               ' after ',
                               El('b', [('metal:use-macro', 'lib/m0')],
                                  [])], [lib], xml


def inside():
    """A macro defined and extending within another macro."""
    subsets = [(), ('s',), ('t',), ('s', 't')]
    for xml, own, outer, name in itertools.product(
            (False, True), subsets, subsets, ('lib/x', 'lib/y')):
        lib = Template([
            El('div', [('metal:define-macro', 'm0')], [
                '0', El('q', [('metal:define-slot', 's')], ['d0s']),
                El('q', [('metal:define-slot', 't')], ['d0t'])]),
            El('div', [('metal:define-macro', 'x')], [
                'X', El('div', [('metal:define-macro', 'y'),
                                ('metal:extend-macro', 'lib/m0')],
                        [El('q', [('metal:fill-slot', s)], ['y' + s])
                         for s in own]),
                El('q', [('metal:define-slot', 's')], ['xs'])])], xml, 'lib')
        yield [El('b', [('metal:use-macro', name)], [
            El('i', [('metal:fill-slot', s)], ['o' + s]) for s in outer]),
            'z'], [lib], xml


ASPECTS = ['output', 'rest']


def check(c):
    n = 10 if c.thorough else 1
    ok = bounded.templates(c, enumerated(c), ASPECTS,
                           'chains of up to three extensions')
    ok = ok and bounded.templates(c, inside(), ASPECTS,
                                  'macros extending inside macros')
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.MACRO, macros=.7, extend=.6,
                              plain=.6, onerror=.3)), ASPECTS, 250 * n,
        'random libraries of three macros', faults=8)
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.ALL, macros=.6)), ASPECTS, 150 * n,
        'same with translation', faults=4)
