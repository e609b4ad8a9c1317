"""C08: optimisation of compiled code preserves its meaning."""
from checks import bounded, gen


def attr_text(item):
    from zope.tal import taldefs
    if item[1] is None:
        return item[0]
    return '%s="%s"' % (item[0], taldefs.attrEscape(item[1]))


def source_view(program, xml):
    """Meaning of a raw instruction list: list of ('text', s), ('scope', x)
    and ('op', instruction)."""
    view = []
    for item in program:
        op = item[0]
        if op == 'rawtext':
            view.append(('text', item[1]))
        elif op == 'endTag':
            view.append(('text', '</%s>' % item[1]))
        elif op in ('startTag', 'startEndTag'):
            name, attrs = item[1], item[2]
            end = '>' if op == 'startTag' else ('/>' if xml else ' />')
            if all(len(a) == 2 for a in attrs):
                view.append(('text', '<' + name + ''.join(
                    ' ' + attr_text(a) for a in attrs) + end))
            else:
                view.append(('op', (op, (name, [
                    (a[0], attr_text(a)) if len(a) == 2 else tuple(a)
                    for a in attrs]))))
        elif op in ('beginScope', 'endScope'):
            view.append(('scope', norm(item)))
        elif op == 'noop':
            pass
        else:
            view.append(('op', norm(item)))
    return view


def norm(item):
    return item if len(item) == 2 else (item[0], tuple(item[1:]))


def target_view(program):
    """Meaning of an optimised instruction list, or a complaint (str)."""
    view = []
    for item in program:
        if len(item) != 2:
            return 'instruction %r has no single argument' % (item,)
        op, arg = item
        if op == 'rawtextOffset':
            if '\n' in arg[0] or arg[1] != len(arg[0]):
                return 'wrong offset in %r' % (item,)
            view.append(('text', arg[0]))
        elif op == 'rawtextColumn':
            if arg[1] != len(arg[0]) - arg[0].rfind('\n') - 1 \
                    or '\n' not in arg[0]:
                return 'wrong column in %r' % (item,)
            view.append(('text', arg[0]))
        elif op == 'rawtextBeginScope':
            s, col, pos, closeprev, d = arg
            if col != len(s) - s.rfind('\n') - 1 or '\n' not in s:
                return 'wrong column in %r' % (item,)
            view.append(('text', s))
            view.append(('op', ('setPosition', pos)))
            if closeprev:
                view.append(('scope', ('endScope', ())))
            view.append(('scope', ('beginScope', d)))
        elif op in ('beginScope', 'endScope'):
            view.append(('scope', item))
        elif op in ('startTag', 'startEndTag'):
            view.append(('op', (op, (arg[0], list(arg[1])))))
        else:
            view.append(('op', item))
    return view


def merged(view):
    """Scopes dropped, adjacent text joined."""
    res = []
    for k, v in view:
        if k == 'scope':
            continue
        if k == 'text':
            if not v:
                continue
            if res and res[-1][0] == 'text':
                res[-1] = ('text', res[-1][1] + v)
                continue
        res.append((k, v))
    return res


def skeleton(view):
    """Everything but text and position marks."""
    return [x for x in view
            if not (x[0] == 'text'
                    or (x[0] == 'op' and x[1][0] == 'setPosition'))]


def complain(before, after, xml):
    a, b = source_view(before, xml), target_view(after)
    if isinstance(b, str):
        return b
    if merged(a) != merged(b):
        return 'text and instructions become %r instead of %r' % (
            merged(b), merged(a))
    if skeleton(a) != skeleton(b):
        return 'instructions become %r instead of %r' % (
            skeleton(b), skeleton(a))
    return None


TEXTS = ['', 'a', 'b\n', '\n', 'c\n  ', '  ', 'd\ne', '<!--x-->', '\r\n',
         'é', '\n\n']


def instruction(rnd, depth=1):
    r = rnd.random()
    if r < .35:
        return ('rawtext', rnd.choice(TEXTS))
    if r < .45:
        return ('endTag', rnd.choice('pq'))
    if r < .58:
        attrs = []
        for i in range(rnd.randrange(4)):
            n = 'abcd'[i]
            attrs.append(rnd.choice([
                (n, 'v"<'), (n, None), (n, ''), (n, '&amp;x'),
                (n, 'v', 'replace', ('$', 'e'), 0, None)
                if rnd.random() < .5 else (n, 'w'),
                ('tal:' + n, 'z', 'tal')
                if rnd.random() < .5 else (n, 'new\nline')]))
        return (rnd.choice(['startTag', 'startEndTag']), rnd.choice('pq'),
                attrs)
    if r < .7:
        return ('beginScope', {'k': rnd.randrange(5)})
    if r < .82:
        return ('endScope',)
    if r < .92:
        return ('setPosition', (rnd.randrange(9), 3))
    return rnd.choice([
        ('noop',), ('insertText', 'e', []), ('condition', 'e', [('x', 1)]),
        ('setLocal', 'n', 'e'), ('beginI18nContext', {'domain': 'd'}),
        ('endI18nContext',), ('version', '1.6'), ('mode', 'html'),
        ('setSourceFile', 'f'), ('defineSlot', 's', [])])


COMMON = [('rawtext', 'x\n'), ('setPosition', (1, 1)), ('beginScope', {}),
          ('endScope',), ('rawtext', 'y'), ('endTag', 'p'),
          ('insertText', 'e', []), ('startTag', 'p', [])]


def sequences(rnd, n):
    import itertools
    for r in range(1, 6 if n < 20000 else 7):
        for t in itertools.product(COMMON, repeat=r):
            yield [i if i[0] != 'startTag' else ('startTag', 'p', [])
                   for i in t]
    for _ in range(n):
        yield [instruction(rnd) for _ in range(rnd.randrange(12))]


def direct(c):
    from zope.tal.talgenerator import TALGenerator
    from zope.tal.dummyengine import DummyEngine
    import copy
    n = 0
    rand = 60000 if c.thorough else 8000
    gens = {x: TALGenerator(DummyEngine(), xml=x) for x in (0, 1)}
    for seq in sequences(c.rnd, rand):
        xml = n % 2
        n += 1
        before = [tuple(copy.copy(x) if isinstance(x, list) else x
                        for x in i) for i in seq]
        try:
            after = gens[xml].optimize(seq)
            why = complain(before, after, xml)
        except Exception as e:
            why = 'optimize fails with %r' % e
            after = None
        c.case(tuple(i[0] for i in before))
        if why:
            c.fail(why, {'instructions': before, 'xml': xml,
                         'optimised': after})
            return False
    c.stand_in('TALGenerator.optimize on instruction lists',
               'all lists of up to %d of 8 common instructions, %d random '
               'lists of up to 11 instructions' % (6 if c.thorough else 5,
                                                   rand))
    return True


def plain_optimize(self, program):
    """A straightforward optimiser: nothing merged, nothing moved."""
    out = []
    for k, v in source_view(program, self.xml):
        if k == 'text':
            if v:
                i = v.rfind('\n')
                out.append(('rawtextColumn', (v, len(v) - i - 1)) if i >= 0
                           else ('rawtextOffset', (v, len(v))))
        elif v[0] == 'endScope':
            out.append(('endScope', ()))
        else:
            out.append(v)
    return out


def rendering(c):
    """Optimised and unoptimised code render alike."""
    from zope.tal.talgenerator import TALGenerator
    from checks import diff
    real = TALGenerator.optimize
    n = 3000 if c.thorough else 600
    for i in range(n):
        w = bounded.Work(c.rnd, gen.Profile(**dict(bounded.ALL, newline=.6)),
                         c.rnd.random() < .4)
        try:
            w.compile()
        except Exception:
            continue
        o = {'wrap': c.rnd.choice((0, 0, 20, 40))}
        a = w.run(w.script(), o)
        TALGenerator.optimize = plain_optimize
        try:
            w.codes = None
            w.compile()
            b = w.run(w.script(), o)
        finally:
            TALGenerator.optimize = real
        c.case(('render', bounded.shape(w.main)))
        why = None
        if (a.text, diff.exc_kind(a.exc)) != (b.text, diff.exc_kind(b.exc)):
            why = 'renders %r instead of %r' % (
                a.exc or a.text, b.exc or b.text)
        elif a.engine.scope_calls != b.engine.scope_calls:
            why = 'begins and ends scopes %r instead of %r' % (
                a.engine.scope_calls, b.engine.scope_calls)
        elif a.engine.log != b.engine.log:
            why = 'evaluates %r instead of %r' % (
                a.engine.log, b.engine.log)
        if why:
            c.fail('optimised code ' + why, w.describe(w.script(), o))
            return False
    c.stand_in('rendering with and without optimisation: output, scope '
               'calls, evaluations and their positions',
               '%d random templates' % n)
    return True


def check(c):
    ok = direct(c)
    ok = ok and rendering(c)
