"""C20: wrapping of long start tags is purely cosmetic."""
import re

from checks import bounded, diff, gen
from checks.refsem import DEFAULT

TAG = re.compile(r'<[A-Za-z][\w:.-]*((?:\s[^\s=<>"/]+(?:="[^"]*")?)*)'
                 r'\s*/?>')
GAP = re.compile(r'\s([^\s=<>"/]+(?:="[^"]*")?)')


def gaps(text):
    """Positions of the single white space in front of each attribute."""
    res = set()
    for m in TAG.finditer(text):
        for a in GAP.finditer(m.group(1)):
            res.add(m.start(1) + a.start())
    return res


def wrapped(flat, text):
    """None if text is flat with some gaps turned into line breaks."""
    g = gaps(flat)
    i = j = breaks = 0
    while i < len(flat):
        if i in g and flat[i] == ' ' and text[j:j + 1] == '\n':
            j += 1
            while text[j:j + 1] == ' ':
                j += 1
            i += 1
            breaks += 1
            continue
        if text[j:j + 1] != flat[i]:
            return 'differs at %r instead of %r' % (text[j:j + 30],
                                                    flat[i:i + 30]), breaks
        i += 1
        j += 1
    if j != len(text):
        return 'has %r added at the end' % text[j:], breaks
    return None, breaks


WIDTHS = [0, 1, 2, 3, 5, 8, 10, 13, 20, 21, 25, 30, 40, 60, 80, 200, 1023]


def compare(c, w, s, opts, widths, stats):
    base = w.run(s, dict(opts, wrap=0))
    for width in widths:
        r = w.run(s, dict(opts, wrap=width))
        stats[0] += 1
        if diff.exc_kind(base.exc) != diff.exc_kind(r.exc):
            return 'with width %d it ends with %r instead of %r' % (
                width, r.exc, base.exc)
        why, breaks = wrapped(base.text, r.text)
        stats[1] += breaks
        if why:
            return 'with width %d the output %s: %r' % (width, why, r.text)
        if width == 0 and breaks:
            return 'lines are broken although the width is 0'
        if [e[0] for e in base.engine.log if e[0][0] != 'translate'] != \
                [e[0] for e in r.engine.log if e[0][0] != 'translate']:
            return 'with width %d other expressions are evaluated' % width
    return None


def written(out, f):
    try:
        f()
    except Exception as e:
        return 'fails: %s: %s' % (type(e).__name__, e)
    return out.getvalue()


def direct(c, stats):
    """Single start tags with many attributes, at every column."""
    from checks.refsem import Engine, Script
    from zope.tal.talinterpreter import TALInterpreter
    import io
    n = 2500 if c.thorough else 500
    for i in range(n):
        rnd = c.rnd
        xml = rnd.random() < .5
        k = rnd.randrange(1, 7)
        names = rnd.sample(['a', 'id', 'title', 'class', 'href', 'checked',
                            'longattributename'], k)
        attrs = ''.join(
            ' %s="%s"' % (nm, rnd.choice(['', 'v', 'two words', 'x' * 30,
                                          'a\nb', '&quot;&lt;', 'v' * 9,
                                          'a\tb', ' x ', '\u00a0']))
            for nm in names)
        dyn = rnd.sample(names + ['new', 'extra'], rnd.randrange(1, 3))
        lits = [rnd.choice(['', 'v', 'w w', 'y' * 25, 'l1\nl2', '"<', None,
                            '\tv', 'v ', ' ',
                            DEFAULT]) for _ in dyn]
        spec = '; '.join('%s lit:%d' % (d, j) for j, d in enumerate(dyn))
        src = 'z' * rnd.randrange(40) + rnd.choice(['', '\n', ' ']) + \
            '<%s%s tal:attributes="%s"%s' % (
                rnd.choice(['p', 'blockquote', 'td']), attrs, spec,
                rnd.choice(['/>', '/><b id="1" a="2"/>']))
        if xml:
            src = '<r xmlns:tal="http://xml.zope.org/namespaces/tal">%s</r>' \
                % src
        e = Engine(Script(lits))
        prog, macros = diff.compile_source(src, xml, 'f', e)

        def out(width, **o):
            e = Engine(Script(lits))
            b = io.StringIO()
            return written(b, lambda: TALInterpreter(
                prog, macros, e, b, wrap=width, **o)())
        for o in ({}, {'tal': 0}):
            flat = out(0, **o)
            for width in WIDTHS + [rnd.randrange(1, 90)]:
                got = out(width, **o)
                why, breaks = wrapped(flat, got)
                stats[0] += 1
                stats[1] += breaks
                c.case(('direct', i, width), {'template': src, 'width': width,
                                              'output': got} if i < 2
                       else None)
                if why or (width == 0 and breaks):
                    c.fail('with width %d the output %s' % (width, why),
                           {'template': src, 'width': width,
                            'values': [str(v) for v in lits],
                            'output': got, 'unwrapped': flat})
                    return False
    c.stand_in('single start tags', '%d tags, %d widths each'
               % (n, len(WIDTHS) + 1))
    return True


def shown(c, stats):
    """Start tags of shown templates, with METAL attributes rewritten."""
    from checks.refsem import Engine, Script
    from zope.tal.talinterpreter import TALInterpreter
    import io
    n = 0
    for fill in (0, 1):
        for pos in range(3):
            for other in ('id="1"', 'class="some words" id="22"', ''):
                def attrs(*metal):
                    a = ['metal:%s' % m for m in metal]
                    a.insert(min(pos, len(a)), other)
                    return ' '.join(x for x in a if x)
                kid = '<i %s>f</i>' % attrs('fill-slot="s"') if fill else ''
                src = ('<p %s>x<b %s>d</b></p><p %s>%s</p><div %s>%s</div>'
                       % (attrs('define-macro="base"'),
                          attrs('define-slot="s"'),
                          attrs('define-macro="ext"',
                                'extend-macro="main/base"'),
                          kid, attrs('use-macro="main/ext"'), kid))
                for opts in ({'tal': 0}, {'showtal': 1}, {'metal': 0},
                             {'tal': 0, 'metal': 0}, {}):
                    outs = {}
                    for width in WIDTHS:
                        e = Engine(Script([]))
                        prog, macros = diff.compile_source(src, False, 'main',
                                                           e)
                        e.codes = {'main': (prog, macros)}
                        b = io.StringIO()
                        outs[width] = written(b, lambda: TALInterpreter(
                            prog, macros, e, b, wrap=width, **opts)())
                        why, breaks = wrapped(outs[0], outs[width])
                        n += 1
                        stats[0] += 1
                        stats[1] += breaks
                        c.case(('shown', n), {'template': src, 'width': width,
                                              'output': b.getvalue()}
                               if n < 3 else None)
                        if why:
                            c.fail('with width %d the output %s'
                                   % (width, why),
                                   {'template': src, 'width': width,
                                    'options': opts,
                                    'output': outs[width],
                                    'unwrapped': outs[0]})
                            return False
    c.stand_in('shown templates with macros and slots', '%d renderings' % n)
    return True


def check(c):
    stats = [0, 0]
    if not direct(c, stats) or not shown(c, stats):
        return
    n = 4000 if c.thorough else 450
    for i in range(n):
        xml = c.rnd.random() < .4
        prof = gen.Profile(**dict(c.rnd.choice([
            bounded.BASE, bounded.ALL, dict(bounded.MACRO, macros=.6)]),
            attributes=.6))
        w = bounded.Work(c.rnd, prof, xml)
        try:
            w.compile()
        except Exception:
            continue
        s = w.script(translate=lambda m, d, mp, df: str(m))
        opts = c.rnd.choice([{}, {}, {'tal': 0}, {'tal': 0}, {'metal': 0},
                             {'showtal': 1}, {'strictinsert': 0}])
        why = compare(c, w, s, opts, c.rnd.sample(WIDTHS, 6), stats)
        c.case(('template', bounded.shape(w.main)))
        if why:
            c.fail(why, w.describe(s, opts))
            return
    c.stand_in('whole templates', '%d random templates, %d renderings, %d '
               'line breaks made' % (n, stats[0], stats[1]))
    if not stats[1]:
        c.undecide('no line was ever broken')
