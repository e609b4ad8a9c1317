"""C15: semicolon lists in directives are split exactly."""
import io
import itertools

from pyvc import fst, strfst
from pyvc.core import Py, Unsupported
from checks import strfun
from checks.refsem import Engine, Script, parts

NAME_START = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
NAME_CHAR = NAME_START | set('0123456789-')


# ---------------------------------------------------------------- the proof
def split_spec(alpha):
    """Left to right: ';;' is a literal semicolon, ';' ends a part."""
    f = fst.FST()
    p, q = f.add(), f.add()
    f.starts = [(p, ())]
    for ch in alpha.letters:
        if ch == fst.SEP:
            continue
        if ch == ';':
            f.arcs[p].append((ch, (), q))
            f.arcs[q].append((ch, (';',), p))
        else:
            f.arcs[p].append((ch, (ch,), p))
            f.arcs[q].append((ch, (fst.SEP, ch), p))
    f.final = {p: (), q: (fst.SEP,)}
    return f


def spec(alpha):
    """split_spec without one final blank part, for text without NUL."""
    s = fst.restrict(split_spec(alpha), alpha, strfst.regex(r'[^\0]*\Z'))
    blank = strfst.regex(r'\s*\Z')
    many = fst.has_sep(alpha, True)
    drop = fst.compose(s, fst.compose(many, fst.compose(
        fst.last_part(alpha, blank), fst.drop_last_part(alpha))))
    keep = fst.compose(s, fst.compose(many, fst.last_part(
        alpha, strfst.regex(r'\s*\Z'), True)))
    one = fst.compose(s, fst.has_sep(alpha, False))
    return fst.union(one, fst.union(drop, keep))


def prove(c):
    from zope.tal import taldefs
    fn = taldefs.splitParts

    def confirm(s):
        if '\0' in s:
            return None
        if list(fn(s)) != parts(s):
            return '%r is split into %r instead of %r' % (s, fn(s), parts(s))
        return None

    try:
        x, f = strfun.extract(lambda I, s: I.call(Py(fn), [s]),
                              [strfst.regex(r'\s*\Z'),
                               strfst.regex(r'[^\0]*\Z')], ';\0', True)
        c.under_contract(fn)
        c.inlined |= x.inlined
        bad = strfun.crosscheck(f, fn, c.rnd, 30000 if c.thorough else 3000,
                                '; ', strfun.enc_list)
        if bad:
            raise Unsupported("engine disagrees with CPython on %r" % (bad,))
        al = f.alpha
        g = fst.restrict(f.fst, al, strfst.regex(r'[^\0]*\Z'))
        g = fst.restrict_by(g, strfst.sep_free(al))
        strfun.decide(c, 'splitParts: equals the left-to-right split for '
                      'every string without NUL',
                      lambda: fst.equivalent(g, spec(al)), confirm)
        # vacuity: the specification tells splits apart
        wrong = split_spec(al)
        wrong.arcs[1] = [(ch, o if ch != ';' else (fst.SEP, fst.SEP), d)
                         for ch, o, d in wrong.arcs[1]]
        if fst.equivalent(fst.restrict(wrong, al, strfst.regex(
                r'[^\0]*\Z')), spec(al)) is None:
            c.undecide('the specification accepts a wrong split')
    except (Unsupported, AttributeError) as e:
        c.undecide("splitParts: %s" % e)


# --------------------------------------------------- reference for one part
def blank(s):
    return not s or s.isspace()


def word(s, ok_start, ok):
    """Leading name of s and the rest, or None."""
    if not s or s[0] not in ok_start:
        return None
    i = 1
    while i < len(s) and s[i] in ok:
        i += 1
    return s[:i], s[i:]


def named(s):
    """name, white space, expression -> (name, expression) or None."""
    w = word(s, NAME_START, NAME_CHAR)
    if w is None or not w[1] or not w[1][0].isspace():
        return None
    return w[0], w[1].lstrip()


def define_part(p):
    """(scope, name, expression) or None if the part is invalid."""
    p = p.lstrip()
    n = named(p)
    if n is None:
        return None
    if n[0] in ('global', 'local'):
        m = named(n[1])
        if m is not None:
            return (n[0],) + m
    return ('local',) + n


def attribute_part(p):
    p = p.strip() if blank(p) else p.lstrip()
    i = 0
    while i < len(p) and not p[i].isspace():
        i += 1
    name, expr = p[:i], p[i:].lstrip()
    if not name or not expr:
        return None
    return name, expr


# --------------------------------------------------------------- the program
class Rec(Engine):
    def __init__(self, script):
        Engine.__init__(self, script)
        self.sets = []
        self.compiled = []

    def compile(self, expr):
        self.compiled.append(expr)
        return ('compiled', expr)

    def _value(self, kind, expr):
        return expr[1]

    def setLocal(self, name, value):
        if name != 'attrs':
            self.sets.append(('local', name, value))

    def setGlobal(self, name, value):
        self.sets.append(('global', name, value))


def program(tal, xml):
    from zope.tal.talgenerator import TALGenerator
    from zope.tal.talinterpreter import TALInterpreter
    e = Rec(Script())
    g = TALGenerator(e, xml=1 if xml else 0)
    g.emitStartElement('a', [], tal, {}, {}, (1, 0))
    g.emitRawText('x')
    g.emitEndElement('a', position=(1, 5))
    prog, macros = g.getCode()
    out = io.StringIO()
    TALInterpreter(prog, macros, e, out, wrap=0)()
    return e, out.getvalue()


def quoted(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def judge_define(c, text, xml):
    from zope.tal.taldefs import TALError
    want = [define_part(p) for p in parts(text)]
    try:
        e, out = program({'define': text}, xml)
        got = e.sets
    except TALError as err:
        got = err
    except Exception as err:
        c.fail('tal:define=%r fails: %r' % (text, err), {'define': text})
        return False
    c.case(('define', text), {'define': text, 'result': repr(got)})
    if not text:
        return True
    if None in want:
        if not isinstance(got, TALError):
            c.fail('tal:define=%r is accepted' % text, {'define': text})
            return False
        return True
    if got != want:
        c.fail('tal:define=%r defines %s instead of %r' % (text, got, want),
               {'define': text})
        return False
    if e.compiled != [w[2] for w in want]:
        c.fail('tal:define=%r: expressions %r are compiled instead of %r'
               % (text, e.compiled, [w[2] for w in want]), {'define': text})
        return False
    return True


def judge_attributes(c, text, xml):
    from zope.tal.taldefs import TALError
    want = {}
    for p in parts(text):
        a = attribute_part(p)
        if a is None:
            want = None
            break
        n = a[0] if xml else a[0].lower()
        if n in want:
            want = None
            break
        want[n] = a[1]
    try:
        e, out = program({'attributes': text}, xml)
        err = None
    except TALError as ex:
        err = ex
    except Exception as ex:
        c.fail('tal:attributes=%r fails: %r' % (text, ex),
               {'attributes': text})
        return False
    c.case(('attributes', text, xml), {'attributes': text,
                                       'result': out if not err else
                                       str(err)})
    if not text:
        return True
    if want is None:
        if err is None:
            c.fail('tal:attributes=%r is accepted' % text,
                   {'attributes': text, 'xml': xml})
            return False
        return True
    if err is not None:
        c.fail('tal:attributes=%r is refused: %s' % (text, err),
               {'attributes': text, 'xml': xml})
        return False
    res = '<a' + ''.join(' %s="%s"' % (n, quoted(v))
                         for n, v in sorted(want.items())) + '>x</a>'
    if out != res or sorted(e.compiled) != sorted(want.values()):
        c.fail('tal:attributes=%r gives %r, compiling %r, instead of %r'
               % (text, out, e.compiled, res),
               {'attributes': text, 'xml': xml})
        return False
    return True


PIECES = [';', ';;', ';;;', ' ', 'x', 'global ', 'local ', 'a e', '\n', 'A e',
          'x y', '1', '-', 'é ', '\t', 'e', 'b  f g ', 'global', 'y  ',
          '&<">', 'a-b ', '.', ':']


def check(c):
    prove(c)
    if c.failures:
        return
    from zope.tal import taldefs
    n = 0
    for k in range(0, 8 if c.thorough else 7):
        for t in itertools.product('; ax', repeat=k):
            s = ''.join(t)
            n += 1
            got = list(taldefs.splitParts(s))
            if got != parts(s):
                c.fail('%r is split into %r instead of %r'
                       % (s, got, parts(s)), {'text': s})
                return
    c.evaluations += n
    for k in range(1, 4):
        for t in itertools.product(PIECES if k < 3 else PIECES[:12],
                                   repeat=k):
            s = ''.join(t)
            for xml in (False, True):
                if not judge_define(c, s, xml) or \
                        not judge_attributes(c, s, xml):
                    return
    c.stand_in('parts of tal:define and tal:attributes as executed',
               'all sequences of up to three pieces out of 12 (two out of '
               '%d)' % len(PIECES))
    n = 60000 if c.thorough else 5000
    for _ in range(n):
        s = ''.join(c.rnd.choice(PIECES)
                    for _ in range(c.rnd.randrange(2, 10)))
        xml = c.rnd.random() < .5
        if not judge_define(c, s, xml) or not judge_attributes(c, s, xml):
            return
    c.stand_in('parts of tal:define and tal:attributes as executed',
               '%d random texts of up to nine pieces' % n)
    c.assume("str.replace, str.split and str.strip behave as documented "
             "(cross-checked on random words on every run)")
