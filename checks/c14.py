"""C14: directives are recognised by namespace and never leak."""
import io
import re

from checks import bounded, diff, gen
from checks.refsem import Engine, Script
from checks.tmpl import NS

KIND = {u: p for p, u in NS.items()}
URIS = list(NS.values()) + ['urn:x', 'urn:y', 'http://www.w3.org/1999/xhtml']
PREFIXES = ['tal', 'metal', 'i18n', 't', 'm', 'x']


class Node:
    def __init__(self, prefix, local, decls, attrs, children):
        self.prefix, self.local = prefix, local
        self.decls, self.attrs, self.children = decls, attrs, children

    @property
    def name(self):
        return '%s:%s' % (self.prefix, self.local) if self.prefix \
            else self.local


def qname(p, n):
    return '%s:%s' % (p, n) if p else n


def source(nodes, xml):
    res = ''
    for n in nodes:
        if isinstance(n, str):
            res += n
            continue
        res += '<' + n.name
        for p, u in n.decls:
            res += ' %s="%s"' % (qname('xmlns', p) if p else 'xmlns', u)
        for p, l, v in n.attrs:
            res += ' %s="%s"' % (qname(p, l), v)
        res += '>' + source(n.children, xml) + '</%s>' % n.name
    return res


def kind(prefix, env):
    return KIND.get(env.get(prefix))


def expected(nodes, env, xml):
    """Output and the number of translations and evaluations."""
    out, count = '', 0
    for n in nodes:
        if isinstance(n, str):
            out += n
            continue
        e = dict(env)
        e.update(n.decls)
        own = kind(n.prefix, e) if n.prefix or xml else None
        dirs = {}
        shown = ''
        for p, u in n.decls:
            if u not in KIND:
                shown += ' %s="%s"' % (qname('xmlns', p) if p else 'xmlns', u)
        for p, l, v in n.attrs:
            k = kind(p, e) if p else own
            if k:
                dirs[k + ':' + l] = v
            else:
                shown += ' %s="%s"' % (qname(p, l), v)
        if 'tal:condition' in dirs:
            count += 1
            continue
        inner, k = expected(n.children, e, xml)
        if 'tal:content' in dirs:
            inner, k = dirs['tal:content'][4:], 1
        if 'tal:define' in dirs:
            k += 1
        if 'i18n:translate' in dirs:
            inner, k = '{%s}' % inner, k + 1
        count += k
        if own or 'tal:omit-tag' in dirs:
            out += inner
        else:
            out += '<%s%s>%s</%s>' % (n.name, shown, inner, n.name)
    return out, count


def macros(nodes, env, xml):
    res = []
    for n in nodes:
        if isinstance(n, str):
            continue
        e = dict(env)
        e.update(n.decls)
        own = kind(n.prefix, e) if n.prefix or xml else None
        for p, l, v in n.attrs:
            if (kind(p, e) if p else own) == 'metal':
                res.append(v)
        res += macros(n.children, e, xml)
    return res


DIRS = {'tal': [('content', 'str:C%d'), ('condition', 'false'),
                ('omit-tag', ''), ('define', 'x str:1')],
        'metal': [('define-macro', 'm%d')],
        'i18n': [('translate', '')]}


class Maker:
    def __init__(self, rnd, xml):
        self.rnd, self.xml, self.n = rnd, xml, 0

    def nodes(self, env, depth):
        res = []
        for _ in range(self.rnd.randrange(1, 4)):
            self.n += 1
            if not depth or self.rnd.random() < .35:
                res.append('t%d' % self.n)
            else:
                res.append(self.node(env, depth))
        return res

    def node(self, env, depth):
        rnd = self.rnd
        decls = {}
        for _ in range(rnd.choice([0, 0, 1, 1, 2])):
            p = rnd.choice(PREFIXES)
            if self.xml and rnd.random() < .15:
                p = ''
            decls[p] = rnd.choice(URIS)
        e = dict(env)
        e.update(decls)
        prefix = rnd.choice([''] * 4 + PREFIXES)
        if self.xml and prefix and prefix not in e:
            prefix = ''
        own = kind(prefix, e) if prefix or self.xml else None
        attrs = []
        used = False
        names = ['id', 'title', 'content', 'define', 'lang']
        rnd.shuffle(names)
        for _ in range(rnd.randrange(4)):
            p = rnd.choice(['', ''] + PREFIXES)
            if self.xml and p and p not in e:
                continue
            k = kind(p, e) if p else own
            self.n += 1
            if k:
                if used:
                    continue
                used = True
                l, v = rnd.choice(DIRS[k])
                attrs.append((p, l, v % self.n if '%d' in v else v))
            elif own and not self.xml and not p:
                continue
            elif names:
                # a name that is a directive elsewhere
                attrs.append((p, names.pop(), 'v%d' % self.n))
        if len(set((e.get(p) if p else None, l) for p, l, v in attrs)) != \
                len(attrs):
            attrs = attrs[:1]
        return Node(prefix, rnd.choice(['b', 'i', 'em', 'span']),
                    sorted(decls.items()), attrs,
                    self.nodes(e, depth - 1))


def squeeze(s):
    return re.sub(r'<([\w:.-]+)([^<>]*?)\s*/>', r'<\1\2></\1>', s)


def run(src, xml, **opts):
    from zope.tal.talinterpreter import TALInterpreter
    e = Engine(Script(translate=lambda m, d, mp, default: '{%s}' % default))
    program, macros = diff.compile_source(src, xml, 'f', e)
    out = io.StringIO()
    TALInterpreter(program, macros, e, out, wrap=0, **opts)()
    return out.getvalue(), e, macros


def judge(c, nodes, xml, key):
    env = {} if xml else dict(NS)
    src = source(nodes, xml)
    want, count = expected(nodes, env, xml)
    names = sorted(macros(nodes, env, xml))
    try:
        got, e, ms = run(src, xml)
    except Exception as err:
        c.fail('template fails: %s: %s' % (type(err).__name__, err),
               {'template': src, 'xml': xml})
        return False
    c.case((key, xml, re.sub(r'\d+', '', src)),
           {'template': src, 'output': got})
    if squeeze(got) != squeeze(want):
        c.fail('output is %r instead of %r' % (got, want),
               {'template': src, 'xml': xml})
        return False
    if len(e.log) != count or sorted(ms) != names:
        c.fail('directives not recognised: %r, macros %r instead of %d, %r'
               % ([x[0] for x in e.log], sorted(ms), count, names),
               {'template': src, 'xml': xml})
        return False
    return True


def enumerated():
    """Each prefix bound to each namespace, used inside, beside, below."""
    for xml in (False, True):
        for p in ('tal', 'metal', 'i18n', 'q'):
            for u in list(KIND) + ['urn:x']:
                k = KIND.get(u)
                for k2 in ('tal', 'metal', 'i18n'):
                    for l, v in DIRS[k or k2]:
                        v = v % 1 if '%d' in v else v
                        use = (p, l, v)
                        after = Node('', 'i', [], [use], ['x'])
                        if xml:
                            again = (p, l, v.replace('m1', 'm2'))
                            after = Node('', 'i', [(p, u)], [
                                ('', 'id', '1'), again, ('', 'lang', 'en')],
                                ['x'])
                        elif p == 'q':
                            pass
                        else:
                            after = Node('', 'i', [], [
                                ('', 'id', '1'),
                                (p,) + DIRS[p][-1], ('', 'lang', 'en')],
                                ['x'])
                            if '%d' in after.attrs[1][2]:
                                after.attrs[1] = (p, 'define-macro', 'm9')
                        yield [Node('', 'b', [(p, u)], [use], ['c']),
                               'z', after], xml
                        yield [Node('', 'b', [(p, u)], [('', 'a', '1')], [
                            Node('', 'i', [], [use], ['c'])]), after], xml
                        if k:
                            yield [Node(p, 'blk', [(p, u)], [('', l, v)], [
                                Node('', 'i', [], [('', 'id', '1')],
                                     ['c'])]), after], xml
                            yield [Node('', 'b', [(p, u)], [], [
                                Node(p, 'blk', [], [('', l, v)], ['c']),
                                Node(p, 'blk', [], [], ['d'])])], xml
                    if k:
                        break


RAW = [
    # everything that is not a directive stays
    (False, '<!DOCTYPE html><!-- c --><b>x</b>&nbsp;&#160;<?pi x?>', None),
    (False, '<![if IE]>x<![endif]><b>y</b>', None),
    (False, '<b>y</b><![CDATA[ x < [y] ]]><![endif]>z', None),
    (False, '<b>y</b>&#x41;&#65;&copy;<?php x ?>', None),
    (False, 'a & b<b>y</b>c < d &', None),
    (False, '<b>y</b>1 <', None),
    (False, '<b>y</b>a &amp', None),
    (False, '<b>y</b>a &#65', None),
    (False, '<a href="x?a=1&amp;b=2" onclick="f(\'x\')">y</a>', None),
    (False, '<b xml:lang="en" data-x="1" xlink:href="u">y</b>', None),
    (False, '<input disabled>', None),
    (False, '<b talx:content="a" metalx:b="c" i18n-x="d">y</b>', None),
    (False, '<b talcontent="a" tal="b" xmlnsx="c">y</b>', None),
    (False, '<b xmlns="urn:x" xmlns:svg="urn:y">y</b>', None),
    (True, '<?xml version="1.0"?>\n<!DOCTYPE a><a><!-- c --><b/>&#160;</a>',
     None),
    (True, '<a xml:lang="en"><b xml:space="preserve"> x </b></a>', None),
    (True, '<a xmlns="urn:d"><b xmlns=""><c/></b></a>', None),
    (True, '<a xmlns:p="u" xmlns="u"><p:b p:c="1" c="2"/></a>', None),
    (True, '<a xmlns:p="u" xmlns:q="u"><p:b q:c="1"/><q:b p:c="1"/></a>',
     None),
    (True, '<a xmlns:p="u"><b xmlns:q="u"><c xmlns:q="v" p:d="1" q:d="2"/>'
     '</b></a>', None),
    (True, '<a>x<![CDATA[<y>]]>z</a>', None),
    (True, '<a tal="1" metal="2"><talb/></a>', None),
    (True, '<a b="1&#10;2" c="&quot;&lt;&amp;"/>', None),
]


def raw(c):
    for xml, src, want in RAW:
        try:
            got = run(src, xml)[0]
        except Exception as err:
            c.fail('template fails: %s: %s' % (type(err).__name__, err),
                   {'template': src, 'xml': xml})
            return False
        c.case(('raw', src))
        w = want or src
        if squeeze(got).replace('\n2"', '&#10;2"') != squeeze(w):
            c.fail('output is %r instead of %r' % (got, w),
                   {'template': src, 'xml': xml})
            return False
    return True


def other(rnd, xml, depth=2):
    """Markup that is no directive; it is expected as it stands."""
    def words(chars):
        return ''.join(rnd.choice(chars) for _ in range(rnd.randrange(7)))
    kind = rnd.choice(['text', 'comment', 'pi', 'el', 'ref', 'decl', 'in',
                       'script'])
    if kind == 'comment':
        return '<!-- %s -->' % words('ab  \n\t<>&;"') if xml else \
            '<!--a%s%s-->' % (words('ab  \n\t<&;"-'),
                             rnd.choice(['', '-', ' ', '\n']))
    if kind == 'pi':
        return '<?x a%s?>' % words('ab  \n\t<&;"')
    if kind == 'decl':
        return '<![CDATA[%s]]>' % words('ab  \n\t<>&;"[') if xml else \
            '<!DOCTYPE html%sa>' % words('  \n\tab"')
    if kind == 'ref':
        return rnd.choice(['&amp;', '&#65;', '&#x41;', '&lt;', '&gt;'])
    if kind == 'script' and not xml:
        return '<script%s>a%s</script>' % (rnd.choice([
            '', ' id="a"'] + [' type="%s"' % t for t in (
                'text/javascript', 'text/server', 'text/x-server-x', 'text/s',
                'server-x', 'application/text/server-x', 'module')]),
            words('ab  \n\t>&;"'))
    if kind in ('text', 'script') or not depth:
        return words('ab  \n\t>";') + rnd.choice(['', '\u00e9', ']'])
    body = ''.join(''.join(other(rnd, xml, depth - 1))
                   for _ in range(rnd.randrange(4)))
    name = rnd.choice(['b', 'x-y', 'h.z', 'o:p', 'svg'])
    if xml and ':' in name:
        name = 'o_p'
    attrs = ''.join(' %s="%s"' % (k, words(
        ['a', 'b', ' ', "'", '&gt;', ',', '&amp;', '&lt;', '&quot;', '$', '%'] +
        ([] if xml else ['\n', '\t'])))
        for k in rnd.sample(['id', 'x-y', 'data.z', '_a', 'o:b'[xml * 2:],
                             'contents', 'talk'], rnd.randrange(4)))
    if kind == 'in':
        return ('<%s%s>' % (name, attrs), body, '</%s>' % name)
    return '<%s%s>%s</%s>' % (name, attrs, body, name)


def others(c):
    """... beside and inside elements with directives."""
    n = 20000 if c.thorough else 2500
    for _ in range(n):
        xml = c.rnd.random() < .4
        src = want = ''
        for _ in range(c.rnd.randrange(1, 5)):
            p = other(c.rnd, xml)
            if isinstance(p, str):
                src, want = src + p, want + p
                continue
            start, body, end = p
            want += start + body + end
            src += start[:-1] + c.rnd.choice([
                ' tal:condition="str:1">', ' tal:define="v str:1">',
                ' metal:define-macro="m">'
                if 'define-macro' not in src else '>',
                ' tal:omit-tag="false">', ' i18n:domain="d">',
                ' tal:repeat="i seq:1">']) + body + end
        if xml:
            src = '<r%s>%s</r>' % (''.join(
                ' xmlns:%s="%s"' % x for x in sorted(NS.items())), src)
            want = '<r>%s</r>' % want
        try:
            got = run(src, xml)[0]
        except Exception as err:
            c.fail('template fails: %s: %s' % (type(err).__name__, err),
                   {'template': src, 'xml': xml})
            return False
        c.case(('other', xml, len(want), want[:40]))
        if squeeze(got) != squeeze(want):
            c.fail('output is %r instead of %r' % (got, want),
                   {'template': src, 'xml': xml})
            return False
    c.stand_in('other markup is kept as it stands', '%d templates of random '
               'text, comments, declarations, processing instructions, '
               'references and elements' % n)
    return True


LEAK = re.compile(r'(?i)<[^>]*(?<![\w-])(?:tal|metal|i18n):|<[^>]*xmlns:'
                  r'(?:tal|metal|i18n)|xml\.zope\.org')


def leaks(w, run_, ref, s, o):
    if run_.exc is None and LEAK.search(run_.text):
        return 'directive in the output %r' % run_.text
    return None


def check(c):
    if not raw(c) or not others(c):
        return
    n = 0
    for nodes, xml in enumerated():
        n += 1
        if xml:
            nodes = [Node('', 'root', [], [], nodes)]
        if not judge(c, nodes, xml, 'enumerated'):
            return
    c.stand_in('prefix bound to each namespace', '%d templates' % n)
    n = 40000 if c.thorough else 4000
    for _ in range(n):
        xml = c.rnd.random() < .5
        m = Maker(c.rnd, xml)
        nodes = m.nodes({} if xml else dict(NS), 3)
        if xml:
            nodes = [Node('', 'root', [], [], nodes)]
        if not judge(c, nodes, xml, 'random'):
            return
    c.stand_in('random bindings and names',
               '%d templates of up to three levels' % n)
    prof = gen.Profile(**bounded.ALL)
    if not bounded.campaign(c, prof, ['output'], 4000 if c.thorough else 500,
                            'no directive in normal output', post=leaks):
        return
