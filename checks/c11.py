"""C11: ill-formed directive use is rejected at compile time."""
import re

from checks import bounded, combos, diff
from checks.refsem import Engine, Script, parts
from checks.tmpl import El, Template, elements

TAL = {'define', 'condition', 'content', 'replace', 'repeat', 'attributes',
       'on-error', 'omit-tag', 'script'}
METAL = {'define-macro', 'extend-macro', 'use-macro', 'define-slot',
         'fill-slot'}
I18N = {'translate', 'domain', 'target', 'source', 'attributes', 'data',
        'name', 'ignore', 'ignore-attributes'}
NAME = re.compile(r'[a-zA-Z_][-a-zA-Z0-9_]*\Z')
VOID = {"base", "meta", "link", "hr", "br", "param", "img", "area",
        "input", "col", "basefont", "isindex", "frame"}


class Ctx:
    def __init__(self, xml):
        self.xml = xml
        self.macros = set()


def bad_expr(e):
    return e.startswith('!')


def faults(nodes, x, use=None, indef=False, units=0):
    """Faults of the template tree, by the property text.  `use` is the set
    of slots filled so far in the enclosing macro use, or None."""
    res = []
    for el in nodes:
        if isinstance(el, str):
            continue
        t, m, i = el.tal, el.metal, el.i18n
        res += ['unknown ' + k for k in t if k not in TAL]
        res += ['unknown ' + k for k in m if k not in METAL]
        res += ['unknown ' + k for k in i if k not in I18N]
        res += ['no value ' + k for k, v in t.items()
                if not v and k != 'omit-tag']
        res += ['no value ' + k for k, v in m.items() if not v]
        res += ['no value ' + k for k, v in i.items()
                if not v and k in ('attributes', 'data')]
        sub = t.get('content') or t.get('replace')
        if 'content' in t and 'replace' in t:
            res.append('content and replace')
        if sub and i.get('translate'):
            res.append('message id and content')
        if not x.xml and el.name in VOID and 'content' in t:
            res.append('content of void element')
        if i.get('name'):
            if not units:
                res.append('name outside unit')
            elif not NAME.match(i['name']):
                res.append('bad i18n:name')
        if i.get('data'):
            if not i.get('translate'):
                res.append('data without translate')
            elif re.match(r'\s*structure\s', i['data']):
                res.append('structure data')
        macro = [k for k in ('define-macro', 'extend-macro', 'use-macro')
                 if m.get(k)]
        slot = [k for k in ('define-slot', 'fill-slot') if m.get(k)]
        if macro and slot:
            res.append('macro and slot')
        if m.get('use-macro') and len(macro) > 1:
            res.append('use with define or extend')
        if m.get('extend-macro') and not m.get('define-macro'):
            res.append('extend without define')
        inner_use, inner_def = use, indef
        dead = use is not None
        if m.get('fill-slot'):
            n = m['fill-slot'].strip()
            if use is None:
                res.append('fill-slot outside use')
            else:
                if n in use:
                    res.append('duplicate fill-slot')
                use.add(n)
                if not NAME.match(n):
                    res.append('bad slot name')
                inner_use = None
                dead = False
        if not dead:
            if m.get('define-macro'):
                n = m['define-macro'].strip()
                if n in x.macros:
                    res.append('duplicate macro')
                x.macros.add(n)
                if not NAME.match(n):
                    res.append('bad macro name')
                inner_def = True
            if m.get('use-macro') or m.get('extend-macro'):
                inner_use = set()
                if bad_expr(m.get('use-macro') or m.get('extend-macro')):
                    res.append('expression')
            if m.get('define-slot'):
                if not indef:
                    res.append('define-slot outside definition')
                if not NAME.match(m['define-slot'].strip()):
                    res.append('bad slot name')
        if t.get('define'):
            for p in parts(t['define']):
                w = re.match(r'(?s)\s*(?:(?:global|local)\s+)?'
                             r'[a-zA-Z_][-a-zA-Z0-9_]*\s+(.*)\Z', p)
                if not w:
                    res.append('bad define')
                elif bad_expr(w.group(1)):
                    res.append('expression')
        if t.get('repeat'):
            w = re.match(r'(?s)\s*[a-zA-Z_][-a-zA-Z0-9_]*\s+(.*)\Z',
                         t['repeat'])
            if not w:
                res.append('bad repeat')
            elif bad_expr(w.group(1)):
                res.append('expression')
        for k in ('condition', 'omit-tag', 'content', 'replace', 'on-error'):
            v = t.get(k)
            if v and bad_expr(re.sub(r'^\s*(text|structure)\s+', '', v)):
                res.append('expression')
        ia = {}
        if i.get('attributes'):
            for p in i['attributes'].split(';'):
                if not p:
                    continue
                w = p.split()
                if len(w) not in (1, 2):
                    res.append('bad i18n:attributes')
                    continue
                n = w[0] if x.xml else w[0].lower()
                if n in ia:
                    res.append('duplicate i18n:attributes')
                ia[n] = w[1] if len(w) == 2 else None
        if t.get('attributes'):
            seen = set()
            for p in parts(t['attributes']):
                w = p.split(None, 1)
                if len(w) != 2:
                    res.append('bad attributes')
                    continue
                n = w[0] if x.xml else w[0].lower()
                if n in seen:
                    res.append('duplicate attributes')
                seen.add(n)
                if ia.get(n):
                    res.append('attribute and message id')
                if bad_expr(w[1]):
                    res.append('expression')
        res += faults(el.children, x, inner_use, inner_def,
                      units + ('translate' in i))
    return res


# values for each directive: usable and faulty
POOL = {
    'tal:define': ['x e', 'global x e; local y e', 'x e;', 'x', '', '1x e',
                   'x-y e', 'x e;;f; y e', 'x e; ;', 'x !', ';',
                   'global  g  e', 'local e', 'x\n e', '; x e'],
    'tal:condition': ['e', '', '!', ' '],
    'tal:repeat': ['i e', '', 'i', 'i !', '1 e', 'i  e f', ' i e', '\ti\te',
                   'i\n'],
    'tal:content': ['e', 'structure e', '', '!', 'structure !', 'text e',
                    'structure'],
    'tal:replace': ['e', 'structure e', '', '!', 'structure\te', 'text\n e'],
    'tal:omit-tag': ['', 'e', '!'],
    'tal:attributes': ['a e', 'a e; b e', 'a', '', 'a e; a f', 'a e; A f',
                       'a e;', 'a !', 'title e', 'a e;;; b f', ';a e',
                       '\n a\te;\n\tb e\n', '\ta\n'],
    'tal:on-error': ['e', 'structure e', '', '!'],
    'tal:bogus': ['e', ''],
    'tal:Define': ['x e'],
    'i18n:translate': ['', 'mid', ''],
    'i18n:domain': ['d', ''],
    'i18n:source': ['en', ''],
    'i18n:target': ['de'],
    'i18n:name': ['n', '', '1n', 'n-m', 'n m', 'n\n', 'é', '_', 'n.'],
    'i18n:data': ['e', '', 'structure e', 'text e'],
    'i18n:attributes': ['title', 'title mid', 'a', 'a m; b', 'a; a', 'a b c',
                        '', 'title m; TITLE n', 'a;', ';a', 'a m;b n'],
    'i18n:ignore': ['', 'x'],
    'i18n:ignore-attributes': ['x'],
    'i18n:bogus': ['', 'x'],
    'i18n:id': ['', 'x'],
    'metal:define-macro': ['m', 'm2', 'm ', '', 'm n', '1m', 'm.', 'm-3',
                           '\tm\n', 'm\n\tn'],
    'metal:use-macro': ['e', '', '!'],
    'metal:extend-macro': ['e', '', '!'],
    'metal:define-slot': ['s', 't', '', 's t', ' s ', '-s', '\n s\t', 's\tt'],
    'metal:fill-slot': ['s', 't', '', 's t', ' s ', '9', '\ts\n', 's\nt'],
    'metal:bogus': ['x', ''],
    'metal:use_macro': ['x'],
}


def random_tree(rnd, depth, xml, calm):
    nodes = []
    for _ in range(rnd.choice([1, 1, 2])):
        n = rnd.choice([0, 1, 1, 2, 2, 3, 4])
        keys = rnd.sample(sorted(POOL), n)
        attrs = []
        for k in keys:
            vals = POOL[k]
            if calm and rnd.random() < .85:
                if 'bogus' in k or k in ('tal:Define', 'metal:use_macro',
                                         'i18n:id'):
                    continue
                attrs.append((k, vals[0]))
            else:
                attrs.append((k, rnd.choice(vals)))
        if rnd.random() < .5:
            attrs.append(('title', 'v'))
        name = rnd.choice(['span', 'b', 'span', 'img', 'tal:blk',
                           'metal:blk', 'i18n:blk'])
        if ':' in name:
            attrs = [a for a in attrs if ':' in a[0]]
        if xml and name == 'img':
            name = 'b'
        if name == 'img':
            nodes.append(El(name, attrs, [], 'void'))
            continue
        kids = random_tree(rnd, depth - 1, xml, calm) if depth else ['t']
        nodes.append(El(name, attrs, kids))
    return nodes


class Compiler(Engine):
    def compile(self, expr):
        if bad_expr(expr):
            raise ValueError('bad expression')
        return ('compiled', expr)


def ambiguous(nodes, xml):
    """Left open by the property: case of directive names in HTML; void
    elements closed implicitly."""
    for el in elements(nodes):
        if el.tal.get('on-error') is not None and el.close == 'void':
            return True
    return False


def outcome(src, xml):
    """-> ('ok', None), ('refused', error) or ('crash', error)."""
    from zope.tal.taldefs import TALError
    try:
        diff.compile_source(src, xml, None, Compiler(Script()))
    except TALError as e:
        try:
            str(e)
        except Exception as x:
            return 'crash', x
        return 'refused', e
    except Exception as e:
        return 'crash', e
    return 'ok', None


def judge(c, nodes, xml, key):
    if not xml and any(n != n.lower() for el in elements(nodes)
                       for n, v in el.attrs):
        return True
    t = Template(nodes, xml, 'main')
    if ambiguous(t.nodes, xml):
        return True
    f = faults(t.nodes, Ctx(xml))
    got, err = outcome(t.src, xml)
    c.case(key + (tuple(sorted(set(f))), bounded.shape(t)),
           {'template': t.src, 'faults': f, 'outcome': got})
    want = 'refused' if f else 'ok'
    if got != want:
        c.fail('template with %s is %s (%s: %s)' % (
            'fault ' + f[0] if f else 'no fault', got,
            type(err).__name__, err), {'template': t.src, 'xml': xml})
        return False
    return True


def wrap(nodes, where):
    if where == 'unit':
        return [El('b', [('i18n:translate', '')], nodes)]
    if where == 'use':
        return [El('b', [('metal:use-macro', 'e')], nodes)]
    if where == 'def':
        return [El('b', [('metal:define-macro', 'outer')], nodes)]
    if where == 'fill':
        return [El('b', [('metal:use-macro', 'e')], [
            El('b', [('metal:fill-slot', 'w')], nodes)])]
    if where == 'filldef':
        return [El('b', [('metal:define-macro', 'outer')], [
            El('b', [('metal:use-macro', 'e')], [
                El('b', [('metal:fill-slot', 'w')], nodes)])])]
    if where == 'afteruse':
        return [El('b', [('metal:define-macro', 'outer')], [
            El('b', [('metal:use-macro', 'e')], ['x'])] + nodes)]
    if where == 'afterfill':
        return [El('b', [('metal:use-macro', 'e')], [
            El('b', [('metal:fill-slot', 'w')], ['x'])] + nodes)]
    if where == 'afterunit':
        return [El('b', [('i18n:translate', '')], ['x'])] + nodes
    if where == 'aftercontent':
        return [El('b', [('i18n:translate', ''), ('tal:content', 'e')],
                   ['x'])] + nodes
    if where == 'afterreplace':
        return [El('b', [('i18n:translate', ''),
                         ('tal:replace', 'structure e')], ['x'])] + nodes
    if where == 'aftername':
        return [El('b', [('i18n:translate', '')], [
            El('b', [('i18n:name', 'w'), ('i18n:translate', '')], ['x'])]
            )] + nodes
    if where == 'afterextend':
        return [El('b', [('metal:define-macro', 'outer'),
                         ('metal:extend-macro', 'e')], [
            El('b', [('metal:fill-slot', 's')], ['x'])])] + nodes
    if where == 'afterslot':
        return [El('b', [('metal:define-macro', 'outer')], [
            El('b', [('metal:define-slot', 's')], ['x'])])] + nodes
    if where == 'afterdef':
        return [El('b', [('metal:define-macro', 'outer')], ['x'])] + nodes
    return nodes


WHERE = ['', 'unit', 'use', 'def', 'fill', 'filldef', 'afteruse', 'afterfill',
         'afterunit', 'afterdef', 'aftercontent', 'afterreplace', 'aftername',
         'afterextend', 'afterslot']


def enumerated(c):
    """One or two directives, every value, every surrounding."""
    keys = sorted(POOL)
    for where in WHERE:
        for a in keys:
            for va in POOL[a]:
                for xml in (False, True):
                    yield where, [(a, va)], xml
    for a in keys:
        for b in keys:
            if a < b:
                for va in POOL[a][:3]:
                    for vb in POOL[b][:3]:
                        if c.thorough or c.rnd.random() < .5:
                            yield (c.rnd.choice(WHERE), [(a, va), (b, vb)],
                                   c.rnd.random() < .5)


HTML_REFUSED = [
    '<p tal:content="e">x<p>y</p>',
    '<ul><li tal:repeat="i e">x<li>y</ul>',
    '<p tal:define="x e">x',
    '<table><tr><td metal:define-macro="m">x<td>y</table>',
    '<b><i tal:condition="e">x</b>',
    '<b><i metal:use-macro="e">x</b>',
    '<span tal:content="e" tal:content="f">x</span>',
    '<span metal:use-macro="e" metal:use-macro="f">x</span>',
    '<span i18n:translate="" i18n:translate="a">x</span>',
    '<tal:x content="e" tal:content="f">x</tal:x>',
    '<img tal:content="e">', '<img tal:content="e"/>', '<br tal:content="e">',
    '<tal:x bogus="e">x</tal:x>', '<metal:x bogus="e">x</metal:x>',
    '<i18n:x bogus="e">x</i18n:x>',
    '<span tal:content>x</span>', '<span tal:define>x</span>',
    '<span metal:use-macro>x</span>', '<span i18n:attributes>x</span>',
    '<span tal:script="">x</span>',
    '<script type="text/server-x" tal:content="e" tal:replace="f">x</script>',
    '<script type="text/server-x" tal:define="1 e">x</script>',
    '<div metal:define-macro="a"></div><div metal:define-macro="a"></div>',
    '<div metal:define-macro="a"><b metal:define-macro="a"></b></div>',
    '<div metal:use-macro="e"><b metal:fill-slot="s"></b>'
    '<b metal:fill-slot="s"></b></div>',
    '<div metal:use-macro="e"><b><i metal:fill-slot="s"></i></b>'
    '<b metal:fill-slot=" s"></b></div>',
    '<div metal:use-macro="e"><b metal:fill-slot="s">'
    '<i metal:fill-slot="t"></i></b></div>',
]
HTML_ACCEPTED = [
    '<span tal:omit-tag>x</span>', '<span i18n:translate>x</span>',
    '<p>x<p>y', '<ul><li>x<li tal:repeat="i e">y</li></ul>',
    '<img tal:replace="e">', '<img tal:attributes="a e">',
    '<br tal:condition="e"/>', '<p><b tal:content="e">x</b><p>y',
    '<div metal:use-macro="e"><b metal:fill-slot="s"></b></div>'
    '<div metal:use-macro="e"><b metal:fill-slot="s"></b></div>',
    '<div metal:use-macro="e"><b metal:fill-slot="s">'
    '<i metal:use-macro="f"><u metal:fill-slot="s"></u></i></b></div>',
    '<div metal:define-macro="a"><b metal:define-slot="s"></b>'
    '<b metal:define-slot="s"></b></div>',
    '<script>x < y && "</b>"</script>',
    '<tal:x><tal:y content="e"/></tal:x>',
    '<span tal:attributes="x e"></span>',
    '<script type>x</script>', '<script type tal:content="e">x</script>',
    '<script type="text/javascript" tal:define="a e">x</script>',
    '<script language tal:condition="e">x</script>',
    '<span tal:attributes="x e; y f" i18n:attributes="x; z mid"></span>',
]


def check(c):
    for src in HTML_REFUSED:
        got, err = outcome(src, False)
        c.case(('html', src))
        if got != 'refused':
            c.fail('faulty template is %s (%r)' % (got, err),
                   {'template': src})
            return
    for src in HTML_ACCEPTED:
        got, err = outcome(src, False)
        c.case(('html', src))
        if got != 'ok':
            c.fail('template without faults is %s (%s)' % (got, err),
                   {'template': src})
            return
    for where, attrs, xml in enumerated(c):
        if not judge(c, wrap([El('span', attrs, ['t'])], where), xml,
                     (where,)):
            return
    c.stand_in('one directive in every surrounding, two directives',
               'enumerated usable and faulty values')
    n = 60000 if c.thorough else 6000
    for i in range(n):
        xml = c.rnd.random() < .5
        nodes = wrap(random_tree(c.rnd, c.rnd.randrange(3), xml,
                                 c.rnd.random() < .7), c.rnd.choice(WHERE))
        if not judge(c, nodes, xml, ('random',)):
            return
    c.stand_in('acceptance decided as by the property text',
               '%d random trees of up to three levels' % n)
    n = 0
    for nodes, others, xml in combos.cases(c.rnd, 4000):
        n += 1
        if not judge(c, nodes, xml, ('combo',)):
            return
    c.stand_in('legal directive combinations are accepted', '%d' % n)
