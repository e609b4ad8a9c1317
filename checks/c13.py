"""C13: HTML elements nest properly and are closed exactly once."""
import io
import itertools
import re

from checks import diff
from checks.refsem import Engine, Script

VOID = {'base', 'meta', 'link', 'hr', 'br', 'param', 'img', 'area', 'input',
        'col', 'basefont', 'isindex', 'frame'}
HEADINGS = {'h1', 'h2', 'h3', 'h4', 'h5', 'h6'}
# an element of the key's kind ends open elements of these kinds
SIBLINGS = {'li': {'li'}, 'dt': {'dt', 'dd'}, 'dd': {'dt', 'dd'},
            'td': {'td', 'th'}, 'th': {'td', 'th'},
            'tr': {'tr', 'td', 'th'}}
CONTAINERS = {'blockquote', 'table', 'thead', 'tfoot', 'tbody', 'noframe',
              'ul', 'ol', 'dl', 'div', 'nav'}
BLOCKS = CONTAINERS | set(SIBLINGS)
DIRECTIVES = ['tal:define="x str:1"', 'tal:content="str:c"',
              'tal:condition="true"', 'tal:omit-tag="false"',
              'tal:attributes="a str:1"', 'tal:on-error="str:1"',
              'i18n:translate=""', 'i18n:domain="d"',
              'metal:define-macro="m%d"', 'tal:repeat="i seq:1"',
              'metal:use-macro="default"']


class Refused(Exception):
    pass


class Model:
    """Open elements by the rules of the property."""

    def __init__(self):
        self.open = []          # (tag, directive)
        self.out = []

    def implied(self):
        tag, directive = self.open[-1]
        if directive:
            raise Refused('directive element closed implicitly')
        self.open.pop()
        self.out.append('</%s>' % tag)

    def start(self, tag, directive, selfclosed):
        if tag not in VOID:
            self.make_room(tag)
        self.out.append('<%s>' % tag)
        if selfclosed or tag in VOID:
            if tag not in VOID:
                self.out.append('</%s>' % tag)
            return
        if directive.startswith('metal:') and any(
                d.startswith('metal:use') for t, d in self.open):
            directive = ''      # METAL has no effect inside a macro use
        self.open.append((tag, directive))

    def make_room(self, tag):
        tags = [t for t, d in self.open]
        keep = len(tags)
        if tag in SIBLINGS:
            first = None
            for i in range(len(tags)):
                if tags[i] in SIBLINGS[tag]:
                    if first is None:
                        first = i
                elif tags[i] in BLOCKS:
                    first = None
            if first is not None:
                keep = first
        elif tag in BLOCKS or tag in HEADINGS or tag == 'p':
            i = len(tags)
            while i and tags[i - 1] not in BLOCKS:
                i -= 1
                if tags[i] in HEADINGS:
                    raise Refused('block in heading')
                if tags[i] == 'p':
                    keep = i
        while len(self.open) > keep:
            self.implied()

    def end(self, tag):
        if tag in VOID:
            raise Refused('end tag of void element')
        if tag not in [t for t, d in self.open]:
            raise Refused('end tag without start tag')
        while self.open[-1][0] != tag:
            self.implied()
        self.open.pop()
        self.out.append('</%s>' % tag)

    def text(self, s):
        self.out.append(s)

    def finish(self):
        while self.open:
            self.implied()
        return ''.join(self.out)


def source(tokens):
    res = ''
    for t in tokens:
        if t[0] == 'start':
            res += '<%s%s%s>' % (t[1], ' ' + t[2] if t[2] else '',
                                 '/' if t[3] else '')
        elif t[0] == 'end':
            res += '</%s>' % t[1]
        else:
            res += t[1]
    return res


def model(tokens):
    m = Model()
    try:
        for t in tokens:
            if t[0] == 'start':
                m.start(t[1], t[2], t[3])
            elif t[0] == 'end':
                m.end(t[1])
            else:
                m.text(t[1])
        return m.finish()
    except Refused as e:
        return e


def squeeze(s):
    """Output without white space and attributes."""
    def tag(m):
        name, empty = m.group(1), m.group(2).endswith('/')
        if name in VOID or not empty:
            return '<%s>' % name
        return '<%s></%s>' % (name, name)
    return re.sub(r'\s+', '', re.sub(r'<(\w+)((?:\s[^>]*|/)?)>', tag, s))


def render(src, **opts):
    from zope.tal.talinterpreter import TALInterpreter
    e = Engine(Script(translate=lambda m, d, mp, default: default))
    program, macros = diff.compile_source(src, False, 'f', e)
    out = io.StringIO()
    o = {'wrap': 0, 'tal': 0, 'metal': 0}
    o.update(opts)
    TALInterpreter(program, macros, e, out, **o)()
    return out.getvalue()


class Events:
    """Generator stand-in: what the parser reports."""

    def __init__(self):
        self.ev = []

    def emitStartElement(self, name, attrlist, taldict, metaldict, i18ndict,
                         position=(None, None), isend=0):
        self.ev.append(('start', name))
        if isend:
            self.ev.append(('end', name))

    def emitEndElement(self, name, isend=0, implied=0,
                       position=(None, None)):
        self.ev.append(('end', name))

    def emitRawText(self, text):
        self.ev.append(('text', text))

    def unEmitWhitespace(self):
        return None

    def getCode(self):
        return [], {}


def balanced(src):
    """Each element closed once, in the right order, as the generator is
    told."""
    from zope.tal.htmltalparser import HTMLTALParser
    g = Events()
    p = HTMLTALParser(g)
    p.parseString(src)
    st = []
    for k, n in g.ev:
        if k == 'start':
            st.append(n)
        elif k == 'end':
            if not st or st[-1] != n:
                return '</%s> is reported while %r are open' % (n, st)
            st.pop()
    if st:
        return '%r are never closed' % st
    return None


def judge(c, tokens, key):
    from zope.tal.htmltalparser import HTMLParseError
    from zope.tal.taldefs import TALError
    src = source(tokens)
    want = model(tokens)
    got = err = None
    try:
        got = render(src)
    except (HTMLParseError, TALError) as e:
        err = e
    except Exception as e:
        c.fail('template fails with %s: %s' % (type(e).__name__, e),
               {'template': src})
        return False
    c.case((key, tuple(t[:2] for t in tokens)),
           {'template': src, 'expected': str(want)})
    if isinstance(want, Refused):
        if err is None:
            c.fail('template is accepted in spite of: %s' % want,
                   {'template': src, 'output': got})
            return False
        return True
    if err is not None:
        c.fail('template is refused: %s' % err, {'template': src})
        return False
    if squeeze(got) != squeeze(want):
        c.fail('elements are closed differently: %r instead of %r'
               % (got, want), {'template': src})
        return False
    b = balanced(src)
    if b:
        c.fail(b, {'template': src})
        return False
    return True


NAMES = ['p', 'li', 'ul', 'td', 'tr', 'table', 'div', 'h1', 'b', 'br', 'dt',
         'dd', 'dl', 'th', 'h2', 'tbody', 'span', 'hr', 'ol', 'nav', 'a',
         'blockquote', 'thead', 'h6', 'col', 'option']


ALL = NAMES + sorted((VOID | HEADINGS | BLOCKS | {
    'form', 'em', 'section', 'option', 'caption', 'address', 'pre'})
    - set(NAMES))


def nested():
    """Every element between two that may end each other."""
    for a, b in [('p', 'p'), ('li', 'li'), ('td', 'th'), ('tr', 'tr'),
                 ('dt', 'dd'), ('h1', 'h2'), ('p', 'div'), ('dd', 'li')]:
        for x in ALL:
            seq = [('start', a, '', False), ('start', x, '', False),
                   ('start', b, '', False)]
            yield seq
            yield seq + [('end', x)]
            yield seq + [('end', b), ('end', a)]


def enumerated(names, n):
    acts = [('start', t, '', False) for t in names] + \
        [('end', t) for t in names]
    for seq in itertools.product(acts, repeat=n):
        if seq[0][0] == 'end' and n > 1:
            continue
        yield list(seq)


def random_tokens(rnd, soup):
    names = rnd.sample(NAMES if rnd.random() < .8 else ALL,
                       rnd.randrange(2, 7))
    res = []
    opened = []
    for i in range(rnd.randrange(3, 14)):
        r = rnd.random()
        if r < .15:
            res.append(('text', 't%d' % i + rnd.choice(['', '\n', ' '])))
        elif r < .6 or not opened:
            t = rnd.choice(names)
            d = ''
            if rnd.random() < .12:
                d = rnd.choice(DIRECTIVES)
                if '%d' in d:
                    d = d % i
                if t in VOID and ('content' in d or 'on-error' in d
                                  or 'translate' in d):
                    d = ''
            sc = rnd.random() < .08 and not d
            res.append(('start', t, d, sc))
            if t not in VOID and not sc:
                opened.append(t)
        elif rnd.random() < soup:
            res.append(('end', rnd.choice(names)))
        else:
            k = rnd.choice([-1, -1, -1, rnd.randrange(len(opened))])
            res.append(('end', opened[k]))
            del opened[k:]
    if rnd.random() < .5:
        for t in reversed(opened):
            res.append(('end', t))
    return res


SCRIPTS = [
    ('<ul><li>a (<li>b [*</ul>', '<ul><li>a (</li><li>b [*</li></ul>'),
    ('<p>a \\<p>b + {2<div>?</div>', '<p>a \\</p><p>b + {2</p><div>?</div>'),
    ('<dl><dt>(?P<dd>]\n </dl>', '<dl><dt>(?P</dt><dd>]</dd></dl>'),
    ('<script>if (a < b) {"</b>"}</script><p>x',
     '<script>if (a < b) {"</b>"}</script><p>x</p>'),
    ('<p>a<script>"<p>"</script>b<p>c', '<p>a<script>"<p>"</script>b</p>'
     '<p>c</p>'),
    ('<script type>x < y</script><p>x', '<script type>x < y</script>'
     '<p>x</p>'),
    ('<p>a<script type="module">"<p>"</script>b', '<p>a'
     '<script type="module">"<p>"</script>b</p>'),
    ('<style>a > b {}</style><br>', '<style>a > b {}</style><br />'),
    ('<P>a<P>b</P>', '<p>a</p><p>b</p>'),
    ('<LI>a<li>b', '<li>a</li><li>b</li>'),
    ('<BR>x<Br/>', '<br />x<br />'),
    ('<!-- <p> --><b>x</b><!-- </b> -->', '<!-- <p> --><b>x</b>'
     '<!-- </b> -->'),
    ('a<!DOCTYPE html><b>x</b>', 'a<!DOCTYPE html><b>x</b>'),
    ('<?php <b> ?><b>x</b>', '<?php <b> ?><b>x</b>'),
]


def check(c):
    for src, want in SCRIPTS:
        try:
            got = render(src)
        except Exception as e:
            c.fail('template fails: %r' % e, {'template': src})
            return
        c.case(('fixed', src))
        if squeeze(got) != squeeze(want):
            c.fail('rendered %r instead of %r' % (got, want),
                   {'template': src})
            return
    sets = [(ALL, 2), (['p', 'div', 'h1', 'b', 'br'], 4),
            (['li', 'ul', 'b', 'p'], 4), (['td', 'tr', 'table', 'th'], 4),
            (['dt', 'dd', 'dl'], 4)]
    if c.thorough:
        sets += [(NAMES[:14], 3), (['tr', 'td', 'table', 'p', 'h1'], 5),
                 (['li', 'ul', 'ol', 'dd', 'p'], 5)]
    total = 0
    for names, n in sets:
        for toks in enumerated(names, n):
            total += 1
            if not judge(c, toks, 'enumerated'):
                return
    for toks in nested():
        total += 1
        if not judge(c, toks, 'nested'):
            return
    # one element with directives, closed in every way
    for d in DIRECTIVES:
        d = d % 1 if '%d' in d else d
        for t in ('p', 'li', 'td', 'b', 'div', 'h1'):
            for nxt in ([], [('end', t)], [('start', t, '', False)],
                        [('start', 'div', '', False)],
                        [('start', 'br', '', False), ('end', t)],
                        [('start', 'b', '', False), ('end', t)],
                        [('start', 'p', '', False), ('end', t)]):
                for outer in ([], [('start', 'ul', '', False)],
                              [('start', 'table', '', False),
                               ('start', 'tr', '', False)]):
                    for close in (False, True):
                        toks = outer + [('start', t, d, False)] + nxt
                        if close:
                            toks = toks + [('end', o[1])
                                           for o in reversed(outer)]
                        total += 1
                        if not judge(c, toks, 'directive'):
                            return
    c.stand_in('nesting decided by the model of open elements',
               'all %d sequences of up to four (thorough: five) tags from '
               'five groups of names' % total)
    n = 60000 if c.thorough else 6000
    for i in range(n):
        if not judge(c, random_tokens(c.rnd, .1), 'random'):
            return
    c.stand_in('nesting decided by the model of open elements',
               '%d random tag sequences of up to 14 tags' % n)
