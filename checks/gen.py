"""Random templates for the reference comparison."""
from checks.tmpl import El, Template

VALUES = ['plain', 'a & b', '<i>x</i>', '"q" \'s\'', '&lt;', 'two\nlines', '',
          'x > y', '&amp;amp;', 'é€', '  sp  ', '${n0}']


class Profile:
    """Probabilities of the directives; 0 switches one off."""

    def __init__(self, **kw):
        self.p = dict(define=.3, condition=.25, repeat=.25, content=.25,
                      replace=.12, omit=.2, attributes=.3, onerror=.15,
                      translate=0, domain=0, name=0, i18nattrs=0, data=0,
                      macros=0, taltag=.08, plain=.3, structure=.3,
                      newline=.4, default=.15, none=.1, message=0, fail=0,
                      void=.1, extend=0, bool=.15, errpos=0)
        self.p.update(kw)


class Gen:
    def __init__(self, rnd, prof, xml):
        self.rnd = rnd
        self.p = prof.p
        self.xml = xml
        self.lits = list(VALUES)
        self.n = 0
        self.vars = ['x', 'y', 'g']
        self.macros = []            # usable macro names

    def hit(self, what):
        return self.rnd.random() < self.p[what]

    def uniq(self):
        self.n += 1
        return self.n

    def text(self):
        r = self.rnd.random()
        if r < self.p['newline']:
            return self.rnd.choice(['t%d\n  ', '\n', 'w%d\n', ' \n ',
                                    'l1\nl%d ']).replace(
                                        '%d', str(self.uniq()))
        return self.rnd.choice(['t%d', 'u%d &amp; ', ' ', 'v%d ',
                                '']).replace('%d', str(self.uniq()))

    def value_expr(self, text=True):
        if self.hit('fail'):
            return 'raise'
        if self.hit('default'):
            return 'default'
        if self.hit('none'):
            return 'none'
        if self.hit('message'):
            return 'msg:%s:%s' % (self.rnd.choice(['dm', 'dn']),
                                  self.rnd.choice(['mid', 'm<2>']))
        r = self.rnd.random()
        if r < .35:
            return 'lit:%d' % self.rnd.randrange(len(self.lits))
        if r < .7:
            return 'var:' + self.rnd.choice(
                self.vars + ['item', 'macroname', 'error'])
        if r < .8:
            return 'attr:' + self.rnd.choice(['a', 'id', 'title'])
        if r < .85:
            return 'int:%d' % self.rnd.randrange(5)
        return 'str:s%d' % self.uniq()

    def simple_expr(self):
        if self.hit('fail'):
            return 'raise'
        r = self.rnd.random()
        if r < .5:
            return 'str:d%d' % self.uniq()
        return 'var:' + self.rnd.choice(self.vars + ['item'])

    def bool_expr(self):
        if self.hit('fail'):
            return 'raise'
        return self.rnd.choice(['true', 'true', 'false', 'var:x', 'int:0',
                                'int:1'])

    def struct_expr(self):
        if self.hit('fail'):
            return 'raise'
        if self.hit('default'):
            return 'default'
        if self.hit('none'):
            return 'none'
        return 'str:' + self.rnd.choice(
            ['<em>s%d</em>', 'p%d', '<b a="1">s%d</b> <u>t</u>',
             'k <q>s%d</q>']).replace('%d', str(self.uniq()))

    def element(self, depth, units, use_ok=True):
        rnd = self.rnd
        void = False
        close = 'normal'
        name = rnd.choice(['span', 'b', 'u', 'em'])
        if depth <= 0 and self.hit('void'):
            close = 'self'
            if not self.xml and rnd.random() < .7:
                name, void = 'img', True
                close = rnd.choice(['self', 'void'])
        attrs = []
        for a in ('a', 'id', 'title', 'class'):
            if rnd.random() < .25:
                attrs.append((a, 'v%d' % self.uniq()))
        if not self.xml and self.hit('bool'):
            attrs.append(('checked', rnd.choice([None, 'checked', 'z'])))
        inner_units = units
        if not self.hit('plain'):
            d, inner_units = self.directives(units, void, attrs)
            if d and not void and self.hit('taltag'):
                name = 'tal:blk'
                # only directive attributes are allowed there
                attrs = []
            for item in d:
                attrs.insert(rnd.randrange(len(attrs) + 1), item)
        kids = []
        if close == 'normal' and depth > 0:
            kids = self.nodes(depth - 1, inner_units, rnd.randrange(4))
        elif close == 'normal' and rnd.random() < .7:
            kids = [self.text()]
        kids = [k for k in kids if k != '']
        return El(name, attrs, merge(kids), close)

    def directives(self, units, void, attrs):
        d = []
        rnd = self.rnd
        tal = {}
        if self.hit('define'):
            ps = []
            for _ in range(rnd.choice([1, 1, 2])):
                sc = rnd.choice(['', '', 'local ', 'global '])
                v = 'g' if sc == 'global ' else rnd.choice(self.vars[:2])
                ps.append('%s%s %s' % (sc, v, self.simple_expr()))
            tal['define'] = '; '.join(ps)
        if self.hit('condition'):
            tal['condition'] = self.bool_expr()
        if self.hit('repeat'):
            tal['repeat'] = rnd.choice(['item', 'x']) + ' ' + (
                'raise' if self.hit('fail') else
                rnd.choice(['seq:', 'seq:1', 'seq:1,2', 'seq:1,2,3']))
        text = None
        if not void and self.hit('content'):
            text = 'content'
        elif self.hit('replace'):
            text = 'replace'
        if text:
            if self.hit('structure'):
                tal[text] = 'structure ' + self.struct_expr()
            else:
                tal[text] = rnd.choice(['', 'text ']) + self.value_expr()
        if self.hit('omit'):
            tal['omit-tag'] = rnd.choice(['', self.bool_expr()])
        if self.hit('attributes'):
            ps = []
            for a in rnd.sample(['a', 'id', 'title', 'new', 'checked'],
                                rnd.choice([1, 2])):
                ps.append('%s %s' % (a, self.value_expr()))
            tal['attributes'] = '; '.join(ps)
        if self.hit('onerror'):
            tal['on-error'] = 'err' if self.hit('errpos') else rnd.choice(
                ['str:E%d' % self.uniq(), 'errtype', 'var:x',
                 'structure str:<i>E</i>', 'none'])
        d += [('tal:' + k, v) for k, v in tal.items()]
        inner = units
        i18n = {}
        if self.hit('translate'):
            i18n['translate'] = '' if text else rnd.choice(
                ['', '', 'mid%d' % self.uniq()])
            if i18n['translate'] and self.hit('data'):
                i18n['data'] = 'map:k=v%d' % self.uniq()
            inner = True
        if units and self.hit('name'):
            i18n['name'] = 'n%d' % rnd.randrange(3)
        if self.hit('domain'):
            i18n['domain'] = 'dom%d' % rnd.randrange(3)
        if self.hit('i18nattrs'):
            taken = set()
            for p in tal.get('attributes', '').split(';'):
                if p.strip():
                    taken.add(p.split()[0])
            ps = []
            for a in rnd.sample(['a', 'id', 'title', 'new'], 2):
                if a in taken or rnd.random() < .5:
                    ps.append(a)
                else:
                    ps.append('%s am%d' % (a, self.uniq()))
            i18n['attributes'] = '; '.join(ps)
        d += [('i18n:' + k, v) for k, v in i18n.items()]
        return d, inner

    def nodes(self, depth, units=False, n=3):
        res = []
        for _ in range(n):
            if self.rnd.random() < .6:
                res.append(self.text())
            if self.macros and self.hit('macros'):
                res.append(self.use(depth, units))
            else:
                res.append(self.element(depth, units))
        if self.rnd.random() < .5:
            res.append(self.text())
        return merge([k for k in res if k != ''])

    # -- METAL ---------------------------------------------------------------
    SLOTS = ['s1', 's2', 's3']

    def slot(self, depth):
        el = self.element(depth - 1, False)
        el.name = 'span'
        el.close = 'normal'
        el.attrs = [a for a in el.attrs if not a[0].startswith('metal:')]
        el.attrs.append(('metal:define-slot', self.rnd.choice(self.SLOTS)))
        return el

    def macro_body(self, depth, uses):
        res = []
        for _ in range(self.rnd.randrange(1, 4)):
            r = self.rnd.random()
            if r < .6:
                res.append(self.slot(depth))
            elif r < .75 and uses:
                res.append(self.use(depth - 1, False, uses))
            else:
                res.append(self.element(depth - 1, False))
            if self.rnd.random() < .4:
                res.append(self.text())
        return merge([k for k in res if k != ''])

    def fillers(self, depth, redefine=False, units=False):
        res = []
        for s in self.SLOTS:
            if self.rnd.random() < .45:
                el = self.element(max(depth - 1, 0), units)
                el.name = 'span'
                el.close = 'normal'
                el.attrs.append(('metal:fill-slot', s))
                if redefine and self.rnd.random() < .3:
                    el.attrs.append(('metal:define-slot',
                                     self.rnd.choice(self.SLOTS)))
                res.append(el)
            if self.rnd.random() < .3:
                res.append('ignored%d' % self.uniq())
        return merge(res)

    def use(self, depth, units, macros=None):
        name = self.rnd.choice(macros or self.macros)
        if self.rnd.random() < .1:
            name = 'default'
        el = self.element(0, units)
        el.name = 'span'
        el.close = 'normal'
        el.attrs.append(('metal:use-macro', name))
        el.children = self.fillers(depth, units=units)
        return el

    def library(self, file, names, depth=2, outer=()):
        """A template defining the macros `names`; later ones may use or
        extend earlier ones."""
        nodes = []
        done = list(outer)
        for n in names:
            el = self.element(0, False)
            el.name = 'span'
            el.close = 'normal'
            el.attrs.append(('metal:define-macro', n))
            if done and self.hit('extend'):
                el.attrs.append(('metal:extend-macro',
                                 self.rnd.choice(done)))
                el.children = self.fillers(depth, True)
            else:
                el.children = self.macro_body(depth, done)
            nodes.append(el)
            nodes.append(self.text() or ' ')
            done.append('%s/%s' % (file, n))
        self.macros = done
        return Template(merge(nodes), self.xml, file)


def merge(nodes):
    res = []
    for n in nodes:
        if isinstance(n, str) and res and isinstance(res[-1], str):
            res[-1] += n
        else:
            res.append(n)
    return res
