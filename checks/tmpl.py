"""Template trees: the inputs of the reference semantics in refsem.py.

A template is a tree of Text and El nodes.  It is written out as HTML or XML
source for the code under test, and walked directly by the reference.
"""

VOID = ('br', 'img', 'hr', 'input')
NS = {'tal': 'http://xml.zope.org/namespaces/tal',
      'metal': 'http://xml.zope.org/namespaces/metal',
      'i18n': 'http://xml.zope.org/namespaces/i18n'}


class El:
    """An element; directives are ordinary attributes with their prefix."""

    def __init__(self, name, attrs=(), children=(), close='normal'):
        self.name = name
        self.attrs = list(attrs)
        self.children = list(children)
        self.close = close              # 'normal', 'void' or 'self'
        self.pos = None
        self.tmpl = None

    def dirs(self, prefix):
        own = self.name.split(':')[0] if ':' in self.name else None
        res = {}
        for n, v in self.attrs:
            if n.startswith(prefix + ':'):
                res[n[len(prefix) + 1:]] = v
            elif ':' not in n and own == prefix and n != 'xmlns':
                res[n] = v
        return res

    @property
    def tal(self):
        return self.dirs('tal')

    @property
    def metal(self):
        return self.dirs('metal')

    @property
    def i18n(self):
        return self.dirs('i18n')

    @property
    def taltag(self):
        return self.name.split(':')[0] in NS if ':' in self.name else False

    def is_directive(self, name):
        if ':' in name:
            p, rest = name.split(':', 1)
            return p in NS or (p == 'xmlns' and rest in NS)
        return bool(self.taltag) and name != 'xmlns'

    def static(self):
        return [(n, v) for n, v in self.attrs if not self.is_directive(n)]


def esc_text(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def esc_attr(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


class Template:
    """nodes: list of str (raw source text) and El."""

    def __init__(self, nodes, xml=False, file=None):
        self.xml = xml
        self.file = file
        if xml:
            nodes = [El('root', [('xmlns:' + p, u) for p, u in NS.items()],
                        nodes)]
        self.nodes = nodes
        self.macros = {}
        self.src = ''
        self._write(nodes)
        self._annotate(nodes, None, False, None)

    def _put(self, s):
        self.src += s

    def _write(self, nodes):
        for n in nodes:
            if isinstance(n, str):
                self._put(n)
                continue
            n.tmpl = self
            line = self.src.count('\n') + 1
            n.pos = (line, len(self.src) - (self.src.rfind('\n') + 1))
            self._put('<' + n.name)
            for k, v in n.attrs:
                self._put(' ' + k)
                if v is not None:
                    self._put('="%s"' % esc_attr(v))
            if not self.xml:
                n.attrs = [(k.lower(), v) for k, v in n.attrs]
            if n.close == 'void':
                self._put('/>' if self.xml else '>')
                continue
            if n.close == 'self':
                self._put('/>')
                continue
            self._put('>')
            self._write(n.children)
            self._put('</%s>' % n.name)

    def _annotate(self, nodes, user, inuse, domain):
        """Fill in: el.dead (METAL ignored), el.slots, el.domain."""
        prev = None
        for n in nodes:
            if isinstance(n, str):
                prev = n
                continue
            m = n.metal
            n.dead = False
            n.slots = {}
            n.filler = False
            inner_use, inner_user = inuse, user
            if inuse:
                if 'fill-slot' in m:
                    n.filler = True
                    user.slots[m['fill-slot'].strip()] = n
                    inner_use = False
                else:
                    n.dead = True
            if not n.dead:
                if 'define-macro' in m:
                    self.macros[m['define-macro'].strip()] = n
                if 'use-macro' in m or 'extend-macro' in m:
                    inner_use, inner_user = True, n
            n.domain = n.i18n.get('domain') or domain
            if n.i18n.get('source') or n.i18n.get('target'):
                n.domain = n.domain or 'default'
            n.prevtext = prev
            self._annotate(n.children, inner_user, inner_use, n.domain)
            prev = None


def elements(nodes):
    for n in nodes:
        if not isinstance(n, str):
            yield n
            yield from elements(n.children)
