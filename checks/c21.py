"""C21: message extraction records every message and never loses one."""
import io
import warnings

from zope.i18nmessageid import Message

from checks import bounded, diff, gen
from checks.refsem import Ref, Script, norm
from checks.tmpl import El, Template, elements

DYNAMIC = '${DYNAMIC_CONTENT}'


class Catalog:
    """What has to be recorded: domain -> id -> (default, places)."""

    def __init__(self):
        self.data = {}
        self.warnings = 0

    def add(self, msgid, domain, default, file, pos):
        if default is not None:
            default = norm(default)
        if default == str(msgid):
            default = None
        if default is None and isinstance(msgid, Message):
            default = msgid.default
        d = self.data.setdefault(domain, {})
        if str(msgid) in d:
            if d[str(msgid)][0] != default:
                self.warnings += 1
        else:
            d[str(msgid)] = (default, [])
        d[str(msgid)][1].append((file, pos))


def recorded(engine):
    return {dom: {str(m): (m.default, list(places))
                  for m, places in d.items()}
            for dom, d in engine.catalog.items()}


def differs(engine, cat, places=True):
    got = recorded(engine)
    for dom in set(got) | set(cat.data):
        a, b = got.get(dom), cat.data.get(dom)
        if a is None or b is None:
            return 'domain %r is %s' % (dom, 'missing' if a is None
                                        else 'recorded without messages')
        for m in sorted(set(a) | set(b)):
            if m not in a:
                return 'message %r of domain %r is not recorded' % (m, dom)
            if m not in b:
                return 'message %r is recorded in domain %r' % (m, dom)
            if a[m][0] != b[m][0]:
                return 'message %r has default %r instead of %r' % (
                    m, a[m][0], b[m][0])
            if places and a[m][1] != b[m][1]:
                return 'message %r has places %r instead of %r' % (
                    m, a[m][1], b[m][1])
    return None


IDS = ['a', 'b', 'msg id', 'Ünï', '', 'a\n b', DYNAMIC, "it's", '%s', '${x}']
DEFAULTS = [None, 'a', 'b', 'msg id', ' a ', 'a\n  b', 'a b', 'Ünï…', '', ' ',
            '%s', '%(x)d', '\N{SNOWMAN}', "it's"]
PLACES = [None, (1, 2), (3, 4), (None, None), 7]


def calls(c, n):
    """Sequences of messages given to the engine."""
    from zope.tal.talgettext import POEngine
    for i in range(n):
        rnd = c.rnd
        engine, cat = POEngine(), Catalog()
        story = []
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            why = None
            for k in range(rnd.randrange(1, 9)):
                msgid = rnd.choice(IDS[:rnd.choice([2, len(IDS)])])
                if rnd.random() < .15:
                    # a message object brings its default along
                    dflt = rnd.choice(DEFAULTS)
                    if dflt is not None and norm(dflt) == msgid:
                        dflt = None
                    msgid = Message(msgid, default=dflt)
                    default = dflt
                else:
                    default = rnd.choice(DEFAULTS)
                domain = rnd.choice([None, 'default', 'd1', 'd2'])
                engine.file = file = rnd.choice(['f.pt', 'ü.pt', 'dir/g.pt'])
                pos = rnd.choice(PLACES)
                mapping = rnd.choice([None, {}, {'x': 'y'}])
                story.append((str(msgid), domain, default, file, pos))
                cat.add(msgid, domain, default, file, pos)
                try:
                    if rnd.random() < .5:
                        engine.translate(msgid, domain, mapping,
                                         default=default, position=pos)
                    else:
                        engine.translate(msgid, domain, mapping, default, pos)
                except Exception as e:
                    why = 'recording fails with %s: %s' % (
                        type(e).__name__, e)
                    break
                why = differs(engine, cat)
                if why is None and len(log) != cat.warnings:
                    why = '%d warnings instead of %d' % (len(log),
                                                         cat.warnings)
                if why:
                    break
        c.case(('calls', tuple((m, d, f) for m, d, f, _, _ in story)),
               {'calls': story, 'catalog': str(recorded(engine))}
               if i < 2 else None)
        if why:
            c.fail(why, {'calls': story})
            return False
    c.stand_in('sequences of messages', '%d random sequences of up to 8' % n)
    return True


class Extract(Ref):
    """Rendering with unknown values, as far as messages go."""

    def __init__(self, tmpl):
        Ref.__init__(self, tmpl, Script([], templates=[tmpl]), metal=0)

    def value(self, kind, expr, fresh=True):
        self.event(kind, expr, fresh=fresh)
        return {'bool': True, 'repeat': [0], 'data': {}}.get(kind, DYNAMIC)

    def translate(self, msgid, default=None, mapping=None):
        Ref.translate(self, msgid, default, mapping)
        return 'x'


def directive(e):
    return any(n.split(':')[0] in ('tal', 'metal', 'i18n')
               for n in [e.name] + [a for a, v in e.attrs])


def sure(el):
    """Is the position at the end of the element still its own?"""
    return not any(directive(e) for e in elements(el.children))


def extract(t, file):
    from zope.tal.talgettext import POEngine, POTALInterpreter
    engine = POEngine()
    engine.file = file
    program, macros = diff.compile_source(t.src, t.xml, file, engine)
    out = io.StringIO()
    POTALInterpreter(program, macros, engine, stream=out, metal=False)()
    return engine


def one(t, file):
    ref = Extract(t)
    ref.run()
    cat = Catalog()
    places = {}
    for what, el, fresh in ref.log:
        if what[0] != 'translate':
            continue
        _, msgid, domain, _, default = what
        msgid, default = diff.canon(msgid), default and diff.canon(default)
        cat.add(msgid, domain, default, file, None)
        places.setdefault((domain, msgid), []).append(
            el.pos if sure(el) else None)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        try:
            engine = extract(t, file)
        except Exception as e:
            return 'extraction fails with %s: %s' % (type(e).__name__, e)
    got = {}
    for dom, d in recorded(engine).items():
        for m, (default, pl) in d.items():
            m2 = diff.canon(m)
            got.setdefault(dom, {})[m2] = (
                default if default is None else diff.canon(default), pl)
    fake = type('E', (), {'catalog': {
        dom: {Message(m, default=x[0]): x[1] for m, x in d.items()}
        for dom, d in got.items()}})
    why = differs(fake, cat, False)
    if why:
        return why
    for (dom, m), exp in places.items():
        pl = got[dom][m][1]
        if len(pl) != len(exp):
            return 'message %r is recorded %d times instead of %d' % (
                m, len(pl), len(exp))
        for (f, p), q in zip(pl, exp):
            if f != file:
                return 'message %r is recorded for file %r' % (m, f)
            if q is not None and tuple(p or ()) != tuple(q):
                return 'message %r is recorded at %r instead of %r' % (
                    m, p, q)
    if len(log) != cat.warnings:
        return '%d warnings instead of %d' % (len(log), cat.warnings)
    return None


def fixed():
    for xml in (False, True):
        def u(mid, kids, *more):
            return El('span', [('i18n:translate', mid)] + list(more), kids)
        yield [u('', ['text']), u('', ['text']), u('m', ['one']),
               u('m', ['two']), u('m', [])], xml
        yield [El('div', [('i18n:domain', 'd')], [
            u('', ['a ', El('b', [('i18n:name', 'n')], ['x'])])]),
            u('', ['a ', El('b', [('i18n:name', 'n')], ['y'])])], xml
        yield [u('k', ['z'], ('i18n:data', 'here')), u('', ['z'])], xml
        yield [El('i', [('title', 'T'), ('i18n:attributes', 'title')], []),
               El('i', [('title', 'T'), ('i18n:attributes', 'title mid')],
                  []),
               El('i', [('tal:attributes', 'title x'),
                        ('i18n:attributes', 'title')], [])], xml
        yield [El('i', [('tal:content', 'x'), ('i18n:translate', '')], []),
               El('i', [('tal:repeat', 'x y'), ('tal:condition', 'z')],
                  [u('', ['in loop'])])], xml
        yield [El('p', [('metal:use-macro', 'no/such')], [
            El('q', [('metal:fill-slot', 's')], [u('', ['filler'])])]),
            El('p', [('metal:define-macro', 'mm')], [
                El('q', [('metal:define-slot', 's')], [
                    u('', ['default'])])])], xml
        yield [El('p', [('tal:on-error', 'x')], [u('', ['guarded'])]),
               El('p', [('tal:omit-tag', 'x'), ('tal:define', 'y z')],
                  [u('', ['  sp \n aced '])])], xml


def check(c):
    n = 12 if c.thorough else 1
    if not calls(c, 4000 * n):
        return
    for nodes, xml in fixed():
        t = Template(nodes, xml, 'f.pt')
        why = one(t, 'f.pt')
        c.case(('fixed', t.src), {'template': t.src})
        if why:
            c.fail(why, {'template': t.src, 'mode': 'xml' if xml else 'html'})
            return
    skipped = 0
    for i in range(500 * n):
        xml = c.rnd.random() < .4
        w = bounded.Work(c.rnd, gen.Profile(**dict(bounded.ALL, message=0)),
                         xml)
        try:
            w.compile()
        except Exception:
            skipped += 1
            continue
        why = one(w.main, 'main')
        c.case(('template', bounded.shape(w.main)))
        if why:
            c.fail(why, {'template': w.main.src,
                         'mode': 'xml' if xml else 'html'})
            return
    c.stand_in('extraction from templates', '%d random templates'
               % (500 * n - skipped))
    c.assume('the user of POEngine sets its file attribute to a string')
