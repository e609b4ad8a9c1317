"""C07: directives render exactly the parts their values select."""
import itertools

from checks import bounded, gen
from checks.tmpl import El


def enumerated():
    conds = [None, 'true', 'false', 'int:0', 'str:', 'str:x', 'none', 'lit:0',
             'default']
    reps = [None, 'seq:', 'seq:1', 'seq:1,2', 'seq:a,b,c']
    omits = [None, '', 'true', 'false', 'int:0', 'str:x', 'none', 'default']
    for xml in (False, True):
        for cond, rep, om in itertools.product(conds, reps, omits):
            a = []
            if cond is not None:
                a.append(('tal:condition', cond))
            if rep is not None:
                a.append(('tal:repeat', 'item ' + rep))
            if om is not None:
                a.append(('tal:omit-tag', om))
            kid = El('b', [('tal:content', 'var:item')], ['k'])
            yield ['x\n ', El('span', a, ['t', kid, ' ']), 'y'], xml
        for om, void in itertools.product(omits, ('self', 'void')):
            if om is None:
                continue
            for name, extra in itertools.product(('img', 'span'), (
                    [], [('tal:replace', 'str:r')],
                    [('i18n:translate', 'm')], [('tal:replace', 'default')])):
                yield ['x', El(name, [('tal:omit-tag', om), ('a', 'b')]
                               + extra, [], 'self' if name == 'span'
                               else void), 'y'], xml
    # nested conditions and repetitions
    for a, b, d in itertools.product(('true', 'false'), ('seq:', 'seq:1,2'),
                                     ('true', 'false', 'var:i')):
        for xml in (False, True):
            yield [El('span', [('tal:condition', a)], [
                El('u', [('tal:repeat', 'i ' + b)], [
                    El('b', [('tal:condition', d), ('tal:repeat', 'j ' + b)],
                       [El('em', [('tal:replace', 'var:j')], [])])])])], xml


def failing():
    # the class of the exception goes with the number of the template
    for k in range(7):
        for xml in (False, True):
            for kids in ([], [El('b', [('tal:content', 'str:z')], [])]):
                for extra in ([('tal:content', 'str:y')],
                              [('tal:attributes', 'id str:1')],
                              [('tal:omit-tag', 'false')]):
                    yield ['x', El('span', [('tal:repeat', 'i seq:1,2'),
                                            ('tal:condition', 'true')]
                                   + extra, kids), 'y'], xml


#: directives beside program text; tags written, what is written in between
CODE = [
    ('', 0, 'C'), ('tal:condition="nothing"', None, ''),
    ('tal:condition="string:x"', 0, 'C'),
    ('tal:repeat="i python:(1, 2, 3)"', 0, 'CCC'),
    ('tal:repeat="i python:()"', None, ''),
    ('tal:omit-tag=""', 0, 'C'), ('tal:omit-tag="string:x"', 0, 'C'),
    ('tal:omit-tag="nothing"', 1, 'C'),
    ('tal:define="x nothing" tal:condition="x"', None, ''),
    ('tal:define="x string:y" tal:condition="x" tal:omit-tag="nothing"', 1,
     'C'),
    ('tal:content="string:d"', 0, 'd'), ('tal:replace="string:d"', None, 'd'),
    ('tal:content="default"', 0, 'C'),
    ('tal:condition="nothing" tal:content="string:d"', None, ''),
    ('tal:repeat="i python:(1, 2)" tal:condition="python:0"', None, ''),
    ('tal:repeat="i python:(1, 2)" tal:omit-tag="python:i == 1"', 2, 'CC'),
]


PLAIN = [
    'a<p type="text/server-x">code</p>b',
    'a<style type="text/server-x">code</style>b',
    'a<script type="text/javascript">code</script>b',
    'a<script>code</script>b', 'a<script src="text/server-x">code</script>b',
    'a<script type="">code</script>b', 'a<script type>code</script>b',
    'a<script type="x-text/server-x">code</script>b',
]


def code(c):
    """Directives of elements whose content is program text."""
    from io import StringIO
    from zope.tal.dummyengine import DummyEngine
    from zope.tal.htmltalparser import HTMLTALParser
    from zope.tal.talinterpreter import TALInterpreter

    class Engine(DummyEngine):
        def evaluateCode(self, lang, text):
            if (lang, text) != ('text/server-x', 'code'):
                raise ValueError((lang, text))
            return 'C'
    for attrs, tags, text in CODE:
        for start, end in (('<script type="text/server-x" %s>', 'script'),
                           ('<p tal:script="text/server-x" %s>', 'p')):
            full = end == 'p' and tags == 0 and 'omit' not in attrs
            src = 'a' + start % attrs + 'code</%s>b' % end
            one = '<%s>%%s</%s>' % (end, end)
            want = (one % text if tags == 1 or full and len(text) < 2
                    else text[0] + one % text[1:] if tags == 2
                    else one.replace('%s', text[:1]) * len(text) if full
                    else text)
            c.case(('code', src))
            try:
                p = HTMLTALParser()
                p.parseString(src)
                out = StringIO()
                TALInterpreter(*p.getCode(), Engine(), out)()
                got = out.getvalue()
            except Exception as e:
                got = repr(e)
            if got != 'a' + want + 'b':
                c.fail('element with program text written as %r instead of '
                       '%r' % (got, 'a' + want + 'b'), {'template': src})
                return False
    for src in PLAIN:
        c.case(('plain', src))
        try:
            p = HTMLTALParser()
            p.parseString(src)
            out = StringIO()
            TALInterpreter(*p.getCode(), Engine(), out)()
            got = out.getvalue()
        except Exception as e:
            got = repr(e)
        if got != src:
            c.fail('element without directives written as %r' % got,
                   {'template': src})
            return False
    c.stand_in('directives of elements with program text, elements that have '
               'none', '%d templates' % (2 * len(CODE) + len(PLAIN)))
    return True


def long():
    for xml in (False, True):
        yield [El('b', [('tal:repeat', 'i lit:0')], ['x'])], xml
        yield [El('b', [('tal:repeat', 'i lit:0'), ('tal:omit-tag', '')], [
            El('i', [('tal:condition', 'var:i')], ['y'])])], xml


def check(c):
    if not code(c):
        return
    prof = gen.Profile(condition=.5, repeat=.4, omit=.4, taltag=.15)
    asp = ['output', 'evals']
    n = 15 if c.thorough else 1
    ok = bounded.templates(c, enumerated(), asp,
                           'condition, repeat and omit-tag on one element',
                           lits=[[]])
    ok = ok and bounded.templates(
        c, failing(), asp, 'failing expressions in conditions and '
        'repetitions', faults=20, lits=[[]])
    ok = ok and bounded.templates(
        c, long(), asp, 'long repetitions', lits=[list(range(1100))])
    ok = ok and bounded.campaign(c, prof, asp, 500 * n,
                                 'templates rich in condition, repeat, omit',
                                 faults=1)
    ok = ok and bounded.campaign(
        c, gen.Profile(**dict(bounded.ALL, condition=.4, repeat=.4)), asp,
        200 * n, 'same with macros and translation')
