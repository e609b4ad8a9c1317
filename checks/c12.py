"""C12: inserted structure is inert and inserted faithfully."""
import io
import re

from checks import bounded, diff, gen
from checks.refsem import Engine, Script
from checks.tmpl import NS, El, Template

DECL = ' '.join('xmlns:%s="%s"' % kv for kv in NS.items())
DIRATTR = re.compile(r'\s+(?:xmlns:)?(?:tal|metal|i18n)(?::[\w-]+)?="[^"]*"')


def plain(text):
    """Canonical output without directive attributes."""
    return diff.canon(DIRATTR.sub('', text))


class Outcome:
    def __init__(self, src, xml, values, **opts):
        o = {'wrap': 0}
        o.update(opts)
        if xml:
            src = '<doc %s>%s</doc>' % (DECL, src)
        self.src, self.values, self.opts = src, values, opts
        self.engine = Engine(Script(values))
        from zope.tal.talinterpreter import TALInterpreter
        program, macros = diff.compile_source(src, xml, 'f', self.engine)
        out = io.StringIO()
        self.exc = self.interp = None
        try:
            self.interp = TALInterpreter(program, macros, self.engine, out,
                                         **o)
            self.interp()
        except Exception as e:
            self.exc = e
        text = out.getvalue()
        if xml and text.startswith('<doc>'):
            text = text[5:]
            if text.endswith('</doc>') and self.exc is None:
                text = text[:-6]
        self.text = text
        self.events = [e[0] for e in self.engine.log]

    def replay(self):
        return {'template': self.src, 'values': self.values,
                'options': self.opts, 'output': self.text,
                'error': repr(self.exc)}


# ways of inserting value 0: (template, translated, attributes)
PLACES = [
    ('<p tal:content="structure lit:0">d</p>', '<p>%s</p>', 0),
    ('<p tal:replace="structure lit:0">d</p>', '%s', 0),
    ('<p tal:content="structure lit:0" i18n:translate="">d</p>', '<p>%s</p>',
     1),
    ('<p tal:replace="structure lit:0" i18n:translate="">d</p>', '%s', 1),
    ('<p title="t" tal:attributes="title str:n" '
     'tal:content="structure lit:0">d</p>', '<p title="n">%s</p>', 0),
    ('<p tal:define="x lit:0" tal:content="structure var:x">d</p>',
     '<p>%s</p>', 0),
    ('<p tal:condition="raise" tal:on-error="structure lit:0">d</p>',
     '<p>%s</p>', 0),
    ('<p tal:repeat="i seq:1,2" tal:replace="structure lit:0">d</p>', '%s%s',
     0),
]

HTML_GOOD = [
    'x', 'a &amp; b', 'a & b', 'x < y', '<b>x</b>', '<b>x</b>y<i>z</i>', '',
    '  ', 'a\nb', '<br>', '<br />', '<img src="a&amp;b" alt="&lt;&quot;">',
    '<!-- c -->', '<div><p>a<p>b</div>', '<ul><li>a<li>b</ul>', '<b><i>x</i></b>]',
    '<script>a < b && c</script>', '&eacute;&#233;', 'end]', 'end&', 'é',
    '<option selected>x</option>', '<table><tr><td>1<td>2</table>',
    '${name} %s %(a)s {0}', '<pre>  x\n\n y </pre>',
]
# values whose elements are closed implicitly are written with end tags
CLOSED = {
    '<div><p>a<p>b</div>': '<div><p>a</p><p>b</p></div>',
    '<ul><li>a<li>b</ul>': '<ul><li>a</li><li>b</li></ul>',
    '<table><tr><td>1<td>2</table>':
    '<table><tr><td>1</td><td>2</td></tr></table>',
}
HTML_BAD = ['<b>x</i>', '</b>', 'x</b>', '<br></br>', '<b><i>x</b></i>',
            '<b>x</b></b>', '<h1><p>x</p></h1>', 'ok <b>yes</b> no</i>']
XML_GOOD = [
    'x', 'a &amp; b', '<b>x</b>', '<b>x</b>y<i>z</i>', '', '  ', 'a\nb',
    '<br/>', '<br></br>', '<x a="&lt;&quot;&amp;"/>', '<!-- c -->', 'end]',
    'end]]', '<b/>]', 'x]', '<?pi data?>', '<b a="1" c="2">x</b> tail',
    '<B><b>x</b></B>', 'é', '&#233;', '<b>1</b><b>2</b><b>3</b>',
    '${name} %s', '<foo>x</foo>', '<b> x </b>\n',
]
XML_BAD = ['<b>', '<b></i>', 'a & b', '<b a=1/>', '</b>', 'a < b', '<b/><',
           '</foo><foo>', '</foo>', '</foo><!--', '</foo><?x ', ']]>',
           '<![CDATA[', '<b a="1" a="2"/>', '<b>ok</b> then <i>', '&;',
           '<!DOCTYPE x>', '<b>x</b></b>', '<b', '&undefined;x</b>', '<!--']

INERT_HTML = [
    '<b tal:content="str:BAD">x</b>', '<b tal:replace="str:BAD">x</b>',
    '<b tal:condition="false">x</b>', '<b tal:repeat="i seq:1,2">x</b>',
    '<b tal:define="global q str:BAD">x</b>', '<b tal:omit-tag="">x</b>',
    '<b tal:attributes="title str:BAD">x</b>',
    '<b tal:on-error="str:BAD">x</b>', '<b metal:use-macro="f/m">x</b>',
    '<b metal:define-macro="m">x</b>',
    '<b metal:define-macro="m"><i metal:define-slot="s">x</i></b>',
    '<b i18n:translate="">x</b>', '<b i18n:translate="BAD">x</b>',
    '<b i18n:domain="BAD">x</b>', '<b title="t" i18n:attributes="title">x'
    '</b>', '<b i18n:translate=""><i i18n:name="n">x</i></b>',
    '<b tal:content="not an expression">x</b>',
    '<i>y</i><b tal:content="raise">x</b>',
]
INERT_XML = [s.replace('<b ', '<b %s ' % DECL, 1) for s in INERT_HTML]


class Shown:
    """A value that is not a string."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __repr__(self):
        return 'Shown(%r)' % self.text


OTHER = [Shown('<b>x</b>'), Shown(''), Shown('a &amp; b'), 5]


def check_insert(c):
    for xml in (False, True):
        good = XML_GOOD if xml else HTML_GOOD
        bad = XML_BAD if xml else HTML_BAD
        inert = INERT_XML if xml else INERT_HTML
        for place, shape, xl in PLACES:
            for strict in (0, 1):
                for v in good + OTHER + bad + inert:
                    src = 'BEFORE' + place + 'AFTER'
                    r = Outcome(src, xml, [v], strictinsert=strict)
                    t = '[default:%s]' % v if xl else str(v)
                    want = shape.replace('%s', t)
                    c.case((xml, place, strict, v), r.replay())
                    if not strict:
                        if r.exc is not None:
                            yield 'value %r is refused: %r' % (v, r.exc), r
                        elif r.text != 'BEFORE' + want + 'AFTER':
                            yield 'value %r is not inserted as it is' % v, r
                    elif v in bad:
                        # nothing of the value may be written
                        head = 'BEFORE' + shape.split('%s')[0]
                        if 'on-error' in place:
                            head = 'BEFORE<p>'
                        if r.exc is None:
                            yield 'malformed value %r is accepted' % v, r
                        elif r.text != head:
                            yield ('part of the malformed value %r is '
                                   'written' % v), r
                    else:
                        if r.exc is not None:
                            yield 'value %r is refused: %r' % (v, r.exc), r
                        elif plain(r.text) != plain(
                                'BEFORE' + want.replace(str(v), CLOSED.get(v, str(v)))
                                + 'AFTER'):
                            yield ('value %r is inserted as something else'
                                   % v), r
                    extra = [e for e in r.events if e[0] not in (
                        'structure', 'value', 'next', 'repeat')
                        and e not in (('text', 'str:n'), ('bool', 'raise'))]
                    n = 1 if xl else 0
                    if len(extra) != n or (n and extra[0][0] != 'translate'):
                        yield ('something inside the value %r is executed: '
                               '%r' % (v, extra)), r
                    if r.interp and r.interp.html != (not xml):
                        yield 'document type changed', r
            c.stand_in('%s insertion by %s' % ('XML' if xml else 'HTML',
                                               place),
                       'enumerated values, strict and not')


def check_handled(c):
    """A malformed value inside a protected element leaves no trace."""
    for xml in (False, True):
        for v in (XML_BAD if xml else HTML_BAD):
            for place in ('content', 'replace'):
                for more in ('', ' tal:attributes="title str:n"'):
                    src = ('BEFORE<div tal:on-error="str:H">in<p tal:%s='
                           '"structure lit:0"%s>d</p></div>AFTER'
                           % (place, more))
                    for strict in (0, 1):
                        if not strict and not (more and place == 'replace'):
                            continue
                        r = Outcome(src, xml, [v], strictinsert=strict)
                        c.case((src, xml, v, strict))
                        if r.exc is not None:
                            yield 'error is not handled: %r' % r.exc, r
                        elif r.text != 'BEFORE<div>H</div>AFTER':
                            yield 'malformed value leaves a trace', r


ATTRS = 'title str:T; new str:N; gone none; keep default'
ATTR_VALUES = [
    # value, expected, whether attributes are evaluated
    ('<b>x</b>', '<b title="T" new="N">x</b>', 1),
    ('<b title="o">x</b>', '<b title="T" new="N">x</b>', 1),
    ('<b gone="o" id="i">x</b>', '<b id="i" title="T" new="N">x</b>', 1),
    ('<b keep="o" id="i">x</b>', '<b keep="o" id="i" title="T" new="N">x</b>',
     1),
    ('<b>x</b><b>y</b>', '<b title="T" new="N">x</b><b>y</b>', 1),
    ('<b><b>y</b></b>', '<b title="T" new="N"><b>y</b></b>', 1),
    ('<b title="o"><b title="p">y</b></b>',
     '<b title="T" new="N"><b title="p">y</b></b>', 1),
    ('text <b>x</b> <i gone="1">y</i>',
     'text <b title="T" new="N">x</b> <i gone="1">y</i>', 1),
    ('only text', 'only text', 0), ('', '', 0),
    ('<!-- c --><b>x</b>', '<!-- c --><b title="T" new="N">x</b>', 1),
    ('<br/><br/>', '<br title="T" new="N"/><br/>', 1),
    ('<b a="1" title="o" z="2">x</b><b title="o"/>',
     '<b a="1" title="T" z="2" new="N">x</b><b title="o"/>', 1),
]


def check_attributes(c):
    for xml in (False, True):
        for v, want, used in ATTR_VALUES:
            for strict in (0, 1):
                for extra in ('', ' title="static" id="own"'):
                    src = ('BEFORE<p%s tal:replace="structure lit:0" '
                           'tal:attributes="%s">d</p>AFTER' % (extra, ATTRS))
                    r = Outcome(src, xml, [v], strictinsert=strict)
                    c.case((src, xml, v, strict), r.replay())
                    if r.exc is not None:
                        yield 'value %r is refused: %r' % (v, r.exc), r
                    elif plain(r.text) != plain('BEFORE' + want + 'AFTER'):
                        yield ('attributes are not applied to exactly the '
                               'first element'), r
                    n = len([e for e in r.events if e[0] == 'text'])
                    if n != 4 * used:
                        yield ('%d attribute expressions evaluated instead '
                               'of %d' % (n, 4 * used)), r
        # attributes of a later element must not be affected
        src = ('<p tal:replace="structure lit:0" tal:attributes="a str:1">d'
               '</p><q tal:replace="structure lit:0">d</q>')
        r = Outcome(src, xml, ['<b>x</b>'])
        c.case((src, xml))
        if plain(r.text) != plain('<b a="1">x</b><b>x</b>'):
            yield 'attributes are applied to another insertion', r
    c.stand_in('attributes applied to inserted values', 'enumerated')


AFTER = [
    '<hr/><i tal:attributes="a str:1"/>', '<i tal:attributes="checked true">'
    'x</i>', '<pre i18n:translate=""> a  b </pre>',
    '<j tal:attributes="b str:2" c="3"/>',
    '<k tal:replace="structure lit:1"/>',
]


def check_mode(c):
    """What follows an insertion is rendered as if it were not there."""
    for xml in (False, True):
        for v in ('x', '<b>x</b>', '<br/>'):
            for a in AFTER:
                for more in ('', ' tal:attributes="title str:n"'):
                    vals = [v, '<b checked="checked"/>']
                    one = Outcome('<p tal:replace="structure lit:0"%s>d</p>|'
                                  % more + a, xml, vals)
                    two = Outcome('|' + a, xml, vals)
                    c.case((v, a, more, xml))
                    if one.exc or two.exc or one.text.split('|')[-1] != \
                            two.text[1:]:
                        yield ('what follows the insertion differs: %r '
                               'instead of %r' % (
                                   one.text.split('|')[-1], two.text[1:])), \
                            one
    c.stand_in('rendering after an insertion', 'enumerated')


def random_value(rnd, xml, depth=2):
    res = []
    for _ in range(rnd.randrange(4)):
        if rnd.random() < .45 or not depth:
            res.append(rnd.choice(['t', 'a &amp; b', ' ', '\n', '&lt;b&gt;',
                                   ']', '<!-- c -->', '&#65;', 'é', '"']))
            continue
        attrs = [(n, rnd.choice(['1', 'a"b', '<&>', '']))
                 for n in rnd.sample(['id', 'title', 'class', 'a'],
                                     rnd.randrange(3))]
        if rnd.random() < .3:
            attrs.insert(rnd.randrange(len(attrs) + 1), rnd.choice([
                ('tal:content', 'str:BAD'), ('tal:condition', 'false'),
                ('i18n:translate', ''), ('metal:use-macro', 'f/m'),
                ('tal:repeat', 'i seq:1,2'), ('tal:define', 'x raise')]))
        r = rnd.random()
        if r < .2:
            res.append(El('br', [a for a in attrs if ':' not in a[0]], [],
                          'self'))
        else:
            res.append(El(rnd.choice(['b', 'i', 'span', 'em']), attrs,
                          random_value(rnd, xml, depth - 1)))
    return res


def check_random(c):
    n = 8000 if c.thorough else 1200
    for _ in range(n):
        xml = c.rnd.random() < .5
        v = Template(random_value(c.rnd, xml), False, 'v').src
        if xml:
            v = '<w %s>%s</w>%s' % (DECL, v, c.rnd.choice(['', ']', 'x']))
        place, shape, xl = c.rnd.choice(PLACES)
        if xl:
            continue
        src = 'BEFORE' + place + 'AFTER'
        r = Outcome(src, xml, [v], strictinsert=1)
        c.case((xml, v, place))
        if r.exc is not None:
            yield 'value %r is refused: %r' % (v, r.exc), r
        elif plain(r.text) != plain('BEFORE' + shape.replace('%s', v)
                                    + 'AFTER'):
            yield 'value %r is inserted as something else' % v, r
        if [e for e in r.events if e[0] not in (
                'structure', 'value', 'next', 'repeat') and e not in (
                    ('text', 'str:n'), ('bool', 'raise'))]:
            yield 'something inside the value %r is executed' % v, r
    c.stand_in('random well-formed values', '%d values' % n)


def check(c):
    for part in (check_insert, check_handled, check_attributes, check_mode,
                 check_random):
        for what, r in part(c):
            c.fail(what, r.replay())
            return
    prof = gen.Profile(structure=.9, content=.35, replace=.35,
                       attributes=.4, **{k: v for k, v in bounded.I18N.items()
                                         if k not in ('data',)})
    for strict in (0, 1):
        if not bounded.campaign(
                c, prof, ['output', 'evals'], 3000 if c.thorough else 500,
                'templates inserting structures, strict=%d' % strict,
                opts={'strictinsert': strict}, faults=3 if c.thorough else 0):
            return
