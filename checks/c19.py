"""C19: processing switches are honoured."""
import contextlib
import io
import itertools
import re

from checks import bounded, diff, gen
from checks.tmpl import El, Template

SWITCHES = [dict(tal=t, metal=m, showtal=s)
            for t, m, s in itertools.product((0, 1), (0, 1), (-1, 0, 1))]
OFF = [s for s in SWITCHES if not (s['tal'] and s['metal'])]
TAL_EVENTS = {'data', 'value', 'bool', 'text', 'structure', 'seq', 'repeat'}


def directives():
    yield 'define', 'x str:1; global y str:2'
    yield 'condition', 'false'
    yield 'repeat', 'i seq:1,2'
    yield 'repeat', 'i seq:'
    yield 'content', 'str:C'
    yield 'content', 'structure str:<i>C</i>'
    yield 'replace', 'str:R'
    yield 'replace', 'structure str:<i>R</i>'
    yield 'attributes', 'title str:T; new str:N'
    yield 'omit-tag', 'true'
    yield 'omit-tag', ''
    yield 'on-error', 'str:E'


def enumerated():
    ds = list(directives())
    for xml in (False, True):
        for a, b in itertools.combinations_with_replacement(ds, 2):
            names = [a[0], b[0]]
            if a == b:
                attrs = [('tal:' + a[0], a[1])]
            elif len(set(names)) == 1 or set(names) == {'content',
                                                        'replace'}:
                continue
            else:
                attrs = [('tal:' + a[0], a[1]), ('tal:' + b[0], b[1])]
            for surround in ('plain', 'macro', 'slot'):
                e = El('b', attrs + [('title', 'own')], [
                    'x', El('i', [('tal:content', 'str:in')], ['own'])])
                if surround == 'plain':
                    yield ['A', e, 'Z'], [], xml
                    continue
                lib = Template([El('p', [('metal:define-macro', 'm')], [
                    'M', El('q', [('metal:define-slot', 's')],
                            ['D', e] if surround == 'slot' else ['D']),
                    'N'] + ([e] if surround == 'macro' else []))], xml, 'lib')
                yield ['A', El('p', [('metal:use-macro', 'lib/m')], [
                    'U', El('q', [('metal:fill-slot', 's')], ['F'])]),
                    El('p', [('metal:define-macro', 'own')], [
                        'O', El('q', [('metal:define-slot', 't')], [
                            'P', El('b', attrs, ['k'])])]),
                    El('p', [('metal:use-macro', 'main/own')], ['V'])], [
                        lib], xml


METAL = re.compile(r'\s(?:metal:)?(?:use|define|extend)-(?:macro|slot)="[^"]*"'
                   r'|\s(?:metal:)?fill-slot="[^"]*"')


def shown(text, o):
    """Expanded macros may show other METAL attributes than written."""
    return diff.canon(METAL.sub('', text) if o.get('metal', 1) else text)


def macro_lookups(w, run, ref, s, o):
    o = o or {}
    if run.exc is None and shown(run.text, o) != shown(ref.text, o):
        return 'output is %r instead of %r' % (run.text, ref.text)
    for e in run.engine.log:
        kind = e[0][0]
        if not o.get('metal', 1) and kind == 'macro':
            return 'macro %r is looked up although METAL is off' % (e[0],)
        if not o.get('tal', 1) and kind in TAL_EVENTS and \
                kind != 'data':
            return '%r is evaluated although TAL is off' % (e[0],)
    return None


def debug(c, n):
    """Debug output goes to standard error, the rest stays the same."""
    for i in range(n):
        xml = c.rnd.random() < .4
        w = bounded.Work(c.rnd, gen.Profile(**bounded.ALL), xml)
        try:
            w.compile()
        except Exception:
            continue
        k = c.rnd.choice([None, None, 1, 2, 3])
        o = dict(c.rnd.choice(SWITCHES))
        plain = w.run(w.script(k), o)
        err, out = io.StringIO(), io.StringIO()
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
            noisy = w.run(w.script(k), dict(o, debug=1))
        c.case(('debug', bounded.shape(w.main), k, str(o)))
        why = None
        if noisy.text != plain.text:
            why = 'with debugging on the output is %r instead of %r' % (
                noisy.text, plain.text)
        elif diff.exc_kind(noisy.exc) != diff.exc_kind(plain.exc):
            why = 'debugging turns %r into %r' % (plain.exc, noisy.exc)
        elif [e[0] for e in noisy.engine.log] != [e[0] for e in
                                                  plain.engine.log]:
            why = 'debugging changes what is evaluated'
        elif out.getvalue():
            why = 'debug output on standard output: %r' % out.getvalue()[:200]
        elif not err.getvalue():
            why = 'no debug output on standard error'
        if why:
            c.fail(why, w.describe(w.script(k), o))
            return False
    c.stand_in('debug output', '%d random templates' % n)
    return True


ASPECTS = ['evals']


def check(c):
    n = 12 if c.thorough else 1
    cases = list(enumerated())
    for o in OFF:
        if not bounded.templates(
                c, cases if c.thorough else cases[SWITCHES.index(o) % 3::3],
                ASPECTS, 'pairs of directives with %r' % o, opts=o,
                post=macro_lookups):
            return
    if not bounded.campaign(c, gen.Profile(**bounded.ALL), ASPECTS, 400 * n,
                            'random templates with random switches',
                            opts=lambda rnd: dict(rnd.choice(SWITCHES)),
                            post=macro_lookups, faults=2):
        return
    if not bounded.campaign(c, gen.Profile(**dict(bounded.MACRO, macros=.6)),
                            ASPECTS, 250 * n, 'random macro uses, switched '
                            'off', opts=lambda rnd: dict(rnd.choice(OFF)),
                            post=macro_lookups, faults=2):
        return
    debug(c, 120 * n)
    c.assume('tal:script elements are left out')
