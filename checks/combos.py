"""All combinations of directives on one element, placed where they are
legal: inside a macro use or definition, inside a translation unit."""
import itertools

from checks.tmpl import El, Template

DIMS = [
    [None, ('tal:define', 'x str:1; global g var:x')],
    [None, ('tal:condition', 'true'), ('tal:condition', 'false')],
    [None, ('tal:repeat', 'i seq:1,2'), ('tal:repeat', 'i seq:')],
    [None, ('tal:content', 'var:x'), ('tal:replace', 'var:x'),
     ('tal:content', 'structure str:<b>s</b>'),
     ('tal:replace', 'structure str:<b>s</b>'),
     ('tal:content', 'default'), ('tal:replace', 'default')],
    [None, ('tal:omit-tag', ''), ('tal:omit-tag', 'true'),
     ('tal:omit-tag', 'false')],
    [None, ('tal:attributes', 'a var:i; n var:x')],
    [None, ('tal:on-error', 'errtype')],
    [None, ('i18n:translate', ''), ('i18n:translate', 'mid')],
    [None, ('i18n:name', 'nm')],
    [None, ('i18n:domain', 'dd')],
    [None, ('i18n:data', 'map:k=v')],
    [None, ('i18n:attributes', 'title tmid; b')],
    [None, ('metal:define-macro', 'mm'), ('metal:use-macro', 'lib/m'),
     ('metal:use-macro', 'default'), ('metal:define-slot', 'sl'),
     ('metal:fill-slot', 's'),
     'extend'],
    ['span', 'tal:blk', 'metal:blk'],
    ['normal', 'empty'],
]
SIZE = 1
for _d in DIMS:
    SIZE *= len(_d)


def decode(i):
    pick = []
    for d in DIMS:
        i, r = divmod(i, len(d))
        pick.append(d[r])
    return pick


def library(xml):
    return Template([El('p', [('metal:define-macro', 'm'),
                              ('tal:define', 'x str:lib')], [
        'M', El('q', [('metal:define-slot', 's')], ['S']), 'N'])],
        xml, 'lib')


def build(pick, rnd, xml):
    """-> (nodes, others, xml) or None if the combination is not legal."""
    dirs = [p for p in pick[:-2] if p is not None]
    name, kind = pick[-2:]
    flat = []
    for d in dirs:
        if d == 'extend':
            flat += [('metal:define-macro', 'mm'),
                     ('metal:extend-macro', 'lib/m')]
        else:
            flat.append(d)
    d = dict(flat)
    if d.get('i18n:translate') and ('tal:content' in d or 'tal:replace' in d):
        return None
    if 'i18n:data' in d and not d.get('i18n:translate'):
        return None
    if kind == 'empty' and not xml and name == 'span' and 'i18n:translate' \
            in d and not ('tal:content' in d or 'tal:replace' in d):
        return None
    rnd.shuffle(flat)
    attrs = flat
    if name != 'span':
        attrs = [(k, v) for k, v in flat]
    else:
        attrs = [('a', '0')] + flat + [('title', 't')]
    kids = [] if kind == 'empty' else [
        'c1\n', El('b', [('tal:content', 'var:i')], ['d']), ' c2']
    el = El(name, attrs, kids)
    nodes = ['p\n  ', el, 'q']
    if 'metal:fill-slot' in d:
        nodes = [El('b', [('metal:use-macro', 'lib/m')], nodes)]
    if 'metal:define-slot' in d:
        nodes = [El('b', [('metal:define-macro', 'outer')], nodes)]
    if 'i18n:name' in d:
        nodes = [El('b', [('i18n:translate', '')], nodes)]
    return nodes, [library(xml)], xml


def cases(rnd, n):
    """n random combinations (all of them if n is None)."""
    idx = range(SIZE) if n is None else (rnd.randrange(SIZE)
                                         for _ in range(n))
    for i in idx:
        for xml in (False, True) if n is None else (rnd.random() < .5,):
            b = build(decode(i), rnd, xml)
            if b is not None:
                yield b


def pairs(rnd):
    """Every combination with at most three directives."""
    k = len(DIMS) - 2
    for r in range(4):
        for dims in itertools.combinations(range(k), r):
            for vals in itertools.product(*[range(1, len(DIMS[j]))
                                            for j in dims]):
                pick = [None] * k + ['span', 'normal']
                for j, v in zip(dims, vals):
                    pick[j] = DIMS[j][v]
                b = build(pick, rnd, rnd.random() < .5)
                if b is not None:
                    yield b
