"""Reference semantics of TAL, METAL and I18N on template trees.

`Ref` renders a template by walking its tree, following the language
definition and the property texts; it uses none of the code under test.
`Engine` is the expression engine given to the code under test.  Both share
`Script`, which fixes what each expression yields.

Expressions:
  str:TEXT  lit:N  none  default  true  false  int:N  var:NAME  attr:NAME
  msg:DOMAIN:ID  seq:A,B  map:K=V  err  raise
"""
import re

from zope.i18nmessageid import Message
from zope.tal.taldefs import ErrorInfo

from checks.tmpl import El, esc_attr, esc_text


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class Failure:
    """What the reference knows about a handled error."""

    def __init__(self, err, pos):
        self.type = type(err)
        self.value = err if isinstance(err, Exception) else None
        self.lineno, self.offset = pos


def kind_of(e):
    t = getattr(e, 'type', None)
    return getattr(t, '__name__', repr(t))


def _kinds(base, *others):
    # any exception may come out of an expression
    return [base] + [type(base.__name__ + o.__name__, (base, o), {})
                     for o in others]


BOOMS = _kinds(Boom, StopIteration, KeyError, IndexError, AttributeError,
               AssertionError, TypeError, ValueError, NameError,
               RecursionError, OSError, UnicodeError, Warning)
BASE_BOOMS = _kinds(BaseBoom, KeyboardInterrupt, SystemExit, GeneratorExit)


DEFAULT = object()
BOOL_ATTRS = {"compact", "nowrap", "ismap", "declare", "noshade", "checked",
              "disabled", "readonly", "multiple", "selected", "noresize",
              "defer"}


class Script:
    """What expressions mean, and which evaluation fails."""

    def __init__(self, lits=(), fail_at=None, exc=Boom, templates=(),
                 special=None, translate=None, maxev=4000):
        self.lits = list(lits)
        self.fail_at = fail_at
        self.exc = exc
        self.templates = {t.file: t for t in templates}
        self.special = special or {}
        self.trans = translate
        self.maxev = maxev

    def value(self, expr, lookup):
        kind, _, rest = expr.strip().partition(':')
        if kind == 'str':
            return rest
        if kind == 'lit':
            return self.lits[int(rest)]
        if kind == 'none':
            return None
        if kind == 'default':
            return DEFAULT
        if kind in ('true', 'false'):
            return kind == 'true'
        if kind == 'int':
            return int(rest)
        if kind == 'var':
            v = lookup(rest)
            return '?' + rest if v is None else v
        if kind == 'not':
            return not self.value(rest, lookup)
        if kind == 'attr':
            d = lookup('attrs') or {}
            return str(d.get(rest, 'no-' + rest))
        if kind == 'msg':
            dom, _, mid = rest.partition(':')
            return Message(mid, dom, default='d-' + mid)
        if kind == 'seq':
            return [x for x in rest.split(',') if x]
        if kind == 'map':
            return dict(p.split('=') for p in rest.split(',') if p)
        if kind == 'err':
            e = lookup('error')
            return 'no-error' if e is None else '%s%s@%s' % (
                kind_of(e), '' if getattr(e, 'value', None) is None else '!',
                (getattr(e, 'lineno', '?'), getattr(e, 'offset', '?')))
        if kind == 'errtype':
            e = lookup('error')
            return 'no-error' if e is None else kind_of(e)
        if kind == 'raise':
            raise self.exc('scripted')
        raise ValueError(expr)

    def translation(self, msgid, domain, mapping, default):
        if self.trans is not None:
            return self.trans(msgid, domain, mapping, default)
        dom = getattr(msgid, 'domain', None) or domain
        return '[%s:%s%s]' % (dom, msgid, ''.join(
            '{%s=%s}' % kv for kv in sorted((mapping or {}).items())))


class Vars:
    """Local scopes and global variables."""

    def __init__(self):
        self.globals = {}
        self.scopes = [{}]

    def begin(self):
        self.scopes.append({})

    def end(self):
        self.scopes.pop()

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return self.globals.get(name)


class ScopeUnderflow(Exception):
    pass


class Engine:
    """Scripted expression engine; records everything asked of it."""

    def __init__(self, script, codes=None):
        self.script = script
        self.codes = codes or {}        # file -> (program, macros)
        self.vars = Vars()
        self.log = []
        self.n = 0
        self.pos = None
        self.file = None
        self.scope_calls = []
        self.errors = []

    # compiler interface
    def getCompilerError(self):
        return ValueError

    def compile(self, expr):
        return ('compiled', expr)

    def event(self, *what):
        self.n += 1
        self.log.append((what, self.pos, self.file, len(self.vars.scopes)))
        if self.n > self.script.maxev:
            raise RuntimeError('rendering does not end')
        if self.n == self.script.fail_at:
            raise self.script.exc('injected')

    def _value(self, kind, expr):
        self.event(kind, expr[1])
        return self.script.value(expr[1], self.vars.lookup)

    def getDefault(self):
        return DEFAULT

    def setPosition(self, pos):
        self.pos = pos

    def setSourceFile(self, f):
        self.file = f

    def beginScope(self):
        self.scope_calls.append(1)
        self.vars.begin()

    def endScope(self):
        self.scope_calls.append(-1)
        if len(self.vars.scopes) < 2:
            raise ScopeUnderflow('endScope without beginScope')
        self.vars.end()

    def setLocal(self, name, value):
        self.vars.scopes[-1][name] = value

    def setGlobal(self, name, value):
        self.vars.globals[name] = value

    def getValue(self, name, default=None):
        v = self.vars.lookup(name)
        return default if v is None else v

    def evaluate(self, expr):
        return self._value('data', expr)

    def evaluateValue(self, expr):
        return self._value('value', expr)

    def evaluateBoolean(self, expr):
        v = self._value('bool', expr)
        return v if v is DEFAULT else bool(v)

    def evaluateText(self, expr):
        v = self._value('text', expr)
        if v is None or v is DEFAULT or isinstance(v, str):
            return v
        return str(v)

    def evaluateStructure(self, expr):
        return self._value('structure', expr)

    def evaluateMacro(self, expr):
        self.event('macro', expr[1])
        e = expr[1].strip()
        if e == 'default':
            return DEFAULT
        if e in self.script.special:
            return self.script.special[e]
        f, _, name = e.rpartition('/')
        return self.codes[f][1][name]

    def setRepeat(self, name, expr):
        seq = self._value('repeat', expr)
        return Iterator(self, name, list(seq))

    def createErrorInfo(self, err, position):
        self.errors.append((type(err), position))
        return ErrorInfo(err if isinstance(err, Exception) else type(err),
                         position)

    def translate(self, msgid, domain=None, mapping=None, default=None):
        self.event('translate', str(msgid), domain,
                   tuple(sorted((mapping or {}).items())), default)
        return self.script.translation(msgid, domain, mapping, default)

    def evaluateCode(self, lang, code):
        self.event('code', lang, code)
        return 'code(%s)' % code


class Iterator:
    def __init__(self, engine, name, seq):
        self.engine, self.name, self.seq = engine, name, seq

    def __next__(self):
        self.engine.event('next', self.name)
        if not self.seq:
            return 0
        self.engine.setLocal(self.name, self.seq.pop(0))
        return 1


class MetalError(Exception):
    """The reference's counterpart of METALError."""


NEWLINE_WS = re.compile(r'(?s)^(.*?)(\r?\n[ \t]*)\Z')


def norm(s):
    return ' '.join(s.split())


class Ref:
    def __init__(self, tmpl, script, tal=1, metal=1, showtal=-1, strict=1,
                 limit=100):
        self.tmpl = tmpl
        self.script = script
        self.tal = tal
        self.metal = metal
        self.showtal = (not tal) if showtal == -1 else showtal
        self.limit = limit
        self.vars = Vars()
        self.log = []
        self.n = 0
        self.bufs = [[]]
        self.domains = ['default']
        self.units = []
        self.macros = []            # (slots, extending)
        self.inuse = False
        self.where = None
        self.spec = []              # per event: (el, check position?)

    # -- events ------------------------------------------------------------
    def event(self, *what, fresh=False):
        self.n += 1
        self.log.append((what, self.where, fresh))
        if self.n > self.script.maxev:
            raise RuntimeError('rendering does not end')
        if self.n == self.script.fail_at:
            raise self.script.exc('injected')

    def value(self, kind, expr, fresh=True):
        self.event(kind, expr, fresh=fresh)
        return self.script.value(expr, self.vars.lookup)

    def text_value(self, expr, fresh=True):
        v = self.value('text', expr, fresh)
        if v is None or v is DEFAULT or isinstance(v, str):
            return v
        return str(v)

    def translate(self, msgid, default=None, mapping=None):
        if default is None:
            default = getattr(msgid, 'default', str(msgid))
        mapping = dict(mapping or {})
        self.event('translate', str(msgid), self.domains[-1],
                   tuple(sorted(mapping.items())), default)
        return self.script.translation(msgid, self.domains[-1], mapping,
                                       default)

    def write(self, s):
        self.bufs[-1].append(s)

    def capture(self, f, *args):
        self.bufs.append([])
        try:
            f(*args)
        finally:
            out = self.bufs.pop()
        return ''.join(out)

    # -- rendering ---------------------------------------------------------
    def run(self):
        self.nodes(self.tmpl.nodes)
        return ''.join(self.bufs[0])

    def nodes(self, nodes):
        for i, n in enumerate(nodes):
            if isinstance(n, str):
                nxt = nodes[i + 1] if i + 1 < len(nodes) else None
                if isinstance(nxt, El) and nxt.tal.get('repeat'):
                    m = NEWLINE_WS.match(n)
                    if m:
                        n = m.group(1)
                self.write(n)
            else:
                self.element(n)

    def element(self, el):
        m = el.metal
        if not el.dead:
            if 'define-macro' in m:
                was, self.inuse = self.inuse, False
                try:
                    self.macro_program(el)
                finally:
                    self.inuse = was
                return
            if 'use-macro' in m:
                self.use(el, m['use-macro'], False)
                return
        self.from_slot(el)

    def macro_program(self, el):
        """What is recorded as a macro: the element without define-macro."""
        if 'extend-macro' in el.metal:
            self.use(el, el.metal['extend-macro'],
                     bool(self.metal and self.inuse))
        else:
            self.body(el)

    def use(self, el, expr, extending):
        if not self.metal:
            self.body(el)
            return
        self.where = el
        self.event('macro', expr, fresh=True)
        e = expr.strip()
        target = None
        if e != 'default':
            if e in self.script.special:
                raise MetalError(e)
            f, _, name = e.rpartition('/')
            target = self.script.templates[f].macros[name]
            if target.tmpl.xml != self.tmpl.xml:
                raise MetalError('mode')
        if len(self.macros) >= self.limit:
            raise MetalError('limit')
        self.macros.append((el.slots, extending))
        outer = self.vars.lookup('macroname')
        self.vars.scopes[-1]['macroname'] = expr.rsplit('/', 1)[-1]
        was, self.inuse = self.inuse, True
        try:
            if target is None:
                self.body(el)
            else:
                self.macro_program(target)
        finally:
            self.inuse = was
            self.macros.pop()
        self.vars.scopes[-1]['macroname'] = outer

    def from_slot(self, el):
        name = el.metal.get('define-slot')
        if name is None or el.dead:
            self.body(el)
            return
        name = name.strip()
        if self.metal and self.macros:
            i = len(self.macros) - 1
            while i >= 0:
                slots, extending = self.macros[i]
                if name in slots:
                    kept = self.macros[i:]
                    del self.macros[i:]
                    try:
                        self.from_slot(slots[name])
                    finally:
                        self.macros.extend(kept)
                    return
                if not extending:
                    break
                i -= 1
        self.body(el)

    def body(self, el):
        ctx = False
        if (el.i18n or 'define-slot' in el.metal) and el.domain:
            self.domains.append(el.domain)
            ctx = True
        scope = bool(el.tal or el.i18n or el.taltag)
        if scope:
            self.vars.begin()
            if self.tal:
                self.vars.scopes[-1]['attrs'] = dict(el.attrs)
        try:
            if 'on-error' in el.tal and self.tal:
                self.protected(el)
            else:
                self.guarded(el)
        finally:
            if scope:
                self.vars.end()
            if ctx:
                self.domains.pop()

    def protected(self, el):
        depth = (len(self.vars.scopes), len(self.domains), len(self.units),
                 len(self.macros), len(self.bufs), self.inuse)
        self.bufs.append([])
        try:
            self.guarded(el)
        except (Boom, BaseBoom, MetalError) as e:
            self.bufs.pop()
            assert depth == (len(self.vars.scopes), len(self.domains),
                             len(self.units), len(self.macros),
                             len(self.bufs), self.inuse)
            self.vars.begin()
            try:
                self.where = el
                self.vars.scopes[-1]['error'] = Failure(e, el.pos)
                tag = not el.taltag or self.showtal
                if tag:
                    self.start_tag(el, self.plain_attrs(el))
                key, expr = subst(el.tal['on-error'])
                if key == 'text':
                    self.insert_text(el, expr, [], False)
                else:
                    self.insert_structure(el, expr, [], False, {})
                if tag:
                    self.write('</%s>' % el.name)
            finally:
                self.vars.end()
        else:
            self.write(''.join(self.bufs.pop()))

    def guarded(self, el):
        t = el.tal
        self.where = el
        if 'define' in t and self.tal:
            for scope, name, expr in defines(t['define']):
                v = self.value('value', expr)
                if scope == 'global':
                    self.vars.globals[name] = v
                else:
                    self.vars.scopes[-1][name] = v
        if 'condition' in t and self.tal:
            if not self.value('bool', t['condition']):
                return
        ws = ''
        if 'repeat' in t and el.prevtext:
            m = NEWLINE_WS.match(el.prevtext)
            if m:
                ws = m.group(2)
        if 'repeat' in t and self.tal:
            name, expr = t['repeat'].split(None, 1)
            seq = list(self.value('repeat', expr))
            first = True
            while True:
                self.where = el
                self.event('next', name)
                if not seq:
                    return
                self.vars.scopes[-1][name] = seq.pop(0)
                self.write(ws)
                self.named(el, first)
                first = False
        else:
            self.write(ws)
            self.named(el, True)

    def named(self, el, fresh):
        name = el.i18n.get('name')
        if not name:
            self.tagged(el, fresh)
            return
        value = norm(self.capture(self.tagged, el, fresh))
        if self.units:
            self.units[-1][name] = value
            self.write('${%s}' % name)
        else:
            self.write(value)

    def tagged(self, el, fresh):
        t = el.tal
        replaced = 'replace' in t
        omit = t.get('omit-tag', '' if replaced else None)
        self.where = el
        notag = False
        if omit is not None and self.tal:
            notag = omit == '' or bool(self.value('bool', omit, fresh))
        if el.taltag and not self.showtal:
            notag = True
        repl = {} if replaced else self.replacements(el)
        attrs = self.attributes(el, repl, fresh)
        if notag:
            self.content(el, fresh)
            return
        self.start_tag(el, attrs)
        empty = el.close != 'normal' and not self.tmpl.xml \
            and not el.tal.get('content')
        if empty:
            # what is inserted follows an element without end tag
            self.write('</%s>' % el.name)
        self.content(el, fresh)
        if not empty:
            self.write('</%s>' % el.name)

    def start_tag(self, el, attrs):
        self.write('<' + el.name + ''.join(
            ' ' + n if v is None else ' %s="%s"' % (n, esc_attr(v))
            for n, v in attrs) + '>')

    def plain_attrs(self, el):
        return el.attrs if self.showtal else el.static()

    def replacements(self, el):
        if not self.tal:
            return {}
        r = {}
        t = el.tal.get('attributes')
        if t:
            for part in parts(t):
                n, e = part.strip().split(None, 1)
                r[n if self.tmpl.xml else n.lower()] = [e, False, None]
        a = el.i18n.get('attributes')
        if a:
            for spec in a.split(';'):
                if not spec.strip():
                    continue
                n, _, mid = spec.strip().partition(' ')
                n = n if self.tmpl.xml else n.lower()
                r.setdefault(n, [None, False, None])
                r[n][1] = True
                r[n][2] = mid.strip() or None
        return r

    def attributes(self, el, repl, fresh, given=None):
        static = self.plain_attrs(el) if given is None else given
        res = []
        left = dict(repl)
        for n, v in static:
            if n in left:
                w = self.attribute(n, v, True, *left.pop(n), fresh=fresh)
                if w is not None:
                    res.append((n, w))
            else:
                res.append((n, v))
        for n in sorted(left):
            w = self.attribute(n, None, False, *left[n], fresh=fresh)
            if w is not None:
                res.append((n, w))
        return res

    def attribute(self, name, static, present, expr, xlat, msgid, fresh):
        """The value to write, or None to leave the attribute out."""
        value = static
        if expr is None:
            if not present and not msgid:
                return None
        elif not self.tmpl.xml and name.lower() in BOOL_ATTRS:
            v = self.value('bool', expr, fresh)
            if v is DEFAULT:
                if not present:
                    return None
            elif not v:
                return None
            else:
                value = None
        else:
            v = self.text_value(expr, fresh)
            if v is DEFAULT:
                if not present:
                    return None
            elif v is None:
                return None
            else:
                value = v
        if xlat and (msgid or value is not None):
            value = self.translate(msgid or value, value)
        elif isinstance(value, Message):
            value = self.translate(value)
        return name if value is None else value

    def content(self, el, fresh):
        t, i = el.tal, el.i18n
        spec = t.get('content') or t.get('replace')
        if spec and self.tal:
            key, expr = subst(spec)
            xl = 'translate' in i
            if key == 'text':
                self.insert_text(el, expr, el.children, xl, fresh)
            else:
                repl = self.replacements(el) if 'replace' in t else {}
                self.insert_structure(el, expr, el.children, xl, repl, fresh)
        elif 'translate' in i and not spec:
            self.unit(el)
        else:
            self.nodes(el.children)

    def insert_text(self, el, expr, block, xl, fresh=True):
        v = self.text_value(expr, fresh)
        if v is None:
            return
        if v is DEFAULT:
            self.nodes(block)
            return
        if xl or isinstance(v, Message):
            v = self.translate(v)
        self.write(esc_text(v))

    def insert_structure(self, el, expr, block, xl, repl, fresh=True):
        v = self.value('structure', expr, fresh)
        if v is None:
            return
        if v is DEFAULT:
            self.nodes(block)
            return
        if not isinstance(v, str):
            v = str(v)
        if xl or isinstance(v, Message):
            v = self.translate(v)
        if repl:
            m = re.match(r'(?s)([^<]*)<([\w:]+)((?:\s+[\w:]+="[^"]*")*)'
                         r'\s*(/?)>(.*)\Z', v)
            if m:
                given = re.findall(r'([\w:]+)="([^"]*)"', m.group(3))
                self.write(m.group(1))
                self.vars.begin()
                self.vars.scopes[-1]['attrs'] = dict(given)
                try:
                    attrs = self.attributes(el, repl, False, given)
                finally:
                    self.vars.end()
                self.write('<' + m.group(2) + ''.join(
                    ' %s="%s"' % (n, esc_attr(x)) for n, x in attrs)
                    + m.group(4) + '>' + m.group(5))
                return
        self.write(v)

    def unit(self, el):
        self.units.append({})
        try:
            default = self.capture(self.nodes, el.children)
        finally:
            mapping = self.units.pop()
        msgid = el.i18n['translate']
        if not msgid:
            msgid = default if (el.name == 'pre' and not self.tmpl.xml) \
                else norm(default)
        self.where = el
        if el.i18n.get('data'):
            obj = self.value('data', el.i18n['data'], False)
            mapping.update(obj or {})
        self.write(self.translate(msgid, default, mapping))


def parts(s):
    """Split at single semicolons; doubled ones are literal."""
    res, cur, i = [], '', 0
    while i < len(s):
        if s.startswith(';;', i):
            cur += ';'
            i += 2
        elif s[i] == ';':
            res.append(cur)
            cur = ''
            i += 1
        else:
            cur += s[i]
            i += 1
    res.append(cur)
    if len(res) > 1 and not res[-1].strip():
        res.pop()
    return res


def defines(s):
    for p in parts(s):
        w = p.strip().split(None, 1)
        scope = 'local'
        if w[0] in ('global', 'local') and len(w[1].split(None, 1)) > 1:
            scope = w[0]
            w = w[1].split(None, 1)
        yield scope, w[0], w[1]


def subst(s):
    w = s.strip().split(None, 1)
    if w[0] in ('text', 'structure') and len(w) > 1:
        return w[0], w[1]
    return 'text', s.strip()
