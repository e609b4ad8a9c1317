"""C18: source annotations only add comments."""
import re

from checks import bounded, diff, gen
from checks.c04 import without
from checks.refsem import BaseBoom, Engine, Script

NOTE = re.compile(r'<!--\n={78}\n([^\n]*)\n={78}\n-->')
DECL = re.compile(r'<\?xml.*?\?>', re.S)


class Stream:
    def __init__(self, events):
        self.events = events

    def write(self, s):
        self.events.append(('write', s))

    def text(self):
        return ''.join(e[1] for e in self.events if e[0] == 'write')


class Watch(Engine):
    def __init__(self, script, codes, events):
        Engine.__init__(self, script, codes)
        self.events = events

    def setSourceFile(self, f):
        Engine.setSourceFile(self, f)
        self.events.append(('file', f))


def render(codes, name, script, on, opts=None):
    from zope.tal.talinterpreter import TALInterpreter
    events = []
    e = Watch(script, codes, events)
    out = Stream(events)
    program, macros = codes[name]
    exc = None
    try:
        TALInterpreter(program, macros, e, out, wrap=0, sourceAnnotations=on,
                       **(opts or {}))()
    except (Exception, BaseBoom) as x:
        exc = x
    return events, out.text(), exc


def expected(events):
    """Where annotations belong: [text or ('note', file)]."""
    res = []
    due = None
    for kind, v in events:
        if kind == 'file':
            due = v
            continue
        if due is not None and v:
            m = DECL.search(v)
            if m:
                res.append(v[:m.end()])
                v = v[m.end():]
            if m or v.strip():
                res.append(('note', due))
                due = None
        res.append(v)
    return res


def pieces(text):
    res = []
    last = 0
    for m in NOTE.finditer(text):
        res.append(text[last:m.start()])
        res.append(('note', re.sub(r' \(line \d+\)\Z', '', m.group(1))))
        last = m.end()
    res.append(text[last:])
    return res


def norm(ps):
    """Annotations moved past white space, as (offset, file)."""
    text = ''.join(p for p in ps if isinstance(p, str))
    notes = []
    at = 0
    for p in ps:
        if isinstance(p, str):
            at += len(p)
            continue
        k = at
        while k < len(text) and text[k].isspace():
            k += 1
        notes.append((k, p[1]))
    return notes


def wrong(codes, name, mk, exact, stats, opts=None, like=None):
    """like: the programs that show where annotations belong."""
    ev0, plain, exc0 = render(codes, name, mk(), 0, opts)
    ev1, noted, exc1 = render(codes, name, mk(), 1, opts)
    if diff.exc_kind(exc0) != diff.exc_kind(exc1):
        return 'annotations turn %r into %r' % (exc0, exc1), noted
    got = pieces(noted)
    notes = norm(got)
    stats[0] += 1
    stats[1] += len(notes)
    if ''.join(p for p in got if isinstance(p, str)) != plain:
        return 'without its annotations the output is %r instead of %r' % (
            NOTE.sub('', noted), plain), noted
    if NOTE.search(plain):
        return 'an annotation is written although they are off', plain
    sets = [v for k, v in ev0 if k == 'file']
    if len(notes) > len(sets):
        return '%d annotations for %d changes of file' % (
            len(notes), len(sets)), noted
    m = DECL.match(plain, len(plain) - len(plain.lstrip()))
    for at, f in notes:
        # directly after the declaration it is fine
        if not plain[at:].strip() and not exc1 and not (
                m and not plain[m.end():at].strip()):
            return 'annotation of %r is followed by white space only' % f, \
                noted
        if m and at < m.end():
            return 'annotation of %r before the end of the XML ' \
                'declaration' % f, noted
        if f not in sets:
            return 'annotation names %r' % f, noted
    if not plain.strip() and notes:
        return 'blank output is annotated', noted
    if like is not None:
        ev0, same, exc0 = render(like, name, mk(), 0, opts)
        if same != plain:
            # a part failed
            exact = False
    if exact and not exc0:
        stats[2] += like is not None
        exp = norm(expected(ev0))
        if notes != exp:
            return 'annotations %r instead of %r' % (notes, exp), noted
    return None, noted


def chunks(c, stats):
    """Programs of given chunks and file changes."""
    pool = ['', ' ', '\n', 'text', '<p>', '<?xml version="1.0"?>',
            '<?xml version="1.0"?>\n', '<?xml version="1.0"?><r>',
            '\n<?xml version="1.0" ?> \n',
            '<?xml\nversion="1.0"?>', '<?xml\tversion="1.0"?><r>', 'x<?pi?>', '\t\n ', '?>', '<?x',
            '<?php echo ?>', '<!-- a -->', '<!DOCTYPE html>']
    n = 8000 if c.thorough else 1200
    from zope.tal.taldefs import TAL_VERSION
    for i in range(n):
        prog = [('version', TAL_VERSION), ('mode', 'html')]
        declared = False
        for k in range(c.rnd.randrange(1, 8)):
            r = c.rnd.random()
            if r < .35:
                prog.append(('setSourceFile', 'f%d' % c.rnd.randrange(3)))
            elif r < .45:
                prog.append(('setPosition', (c.rnd.randrange(9), 0)))
            else:
                s = c.rnd.choice(pool)
                if '<?xml' in s:
                    if declared or any(
                            x[0].startswith('raw') and x[1][0].strip()
                            for x in prog):
                        continue
                    declared = True
                op = c.rnd.choice(['rawtextOffset', 'rawtextColumn'])
                prog.append((op, (s, len(s))))
        codes = {'p': (prog, {})}
        why, out = wrong(codes, 'p', lambda: Script([]), True, stats)
        c.case(('chunks', tuple(str(x) for x in prog)),
               {'program': prog, 'output': out} if i < 2 else None)
        if why:
            c.fail(why, {'program': prog, 'output': out})
            return False
    c.stand_in('chunks of text and changes of file',
               '%d random programs of up to 7 instructions' % n)
    return True


def check(c):
    stats = [0, 0, 0]
    if not chunks(c, stats):
        return
    n = 12 if c.thorough else 1
    for prof, exact, faults in (
            (dict(bounded.MACRO, macros=.6, onerror=0), True, 0),
            (dict(bounded.ALL, onerror=0), True, 0),
            (dict(bounded.ALL, onerror=.3), True, 4)):
        for i in range(220 * n):
            xml = c.rnd.random() < .4
            w = bounded.Work(c.rnd, gen.Profile(**prof), xml)
            src = w.main.src
            if c.rnd.random() < .3:
                w.main.src = c.rnd.choice([
                    '<?xml version="1.0"?>\n', '<?xml version="1.0"?>',
                    '<?xml\nversion="1.0"?>']) + src
            try:
                w.compile()
            except Exception:
                w.main.src = src
                try:
                    w.compile()
                except Exception:
                    continue
            like = None
            if prof['onerror']:
                # where nothing fails, as without tal:on-error
                main, libs = without(w)
                main.src = w.main.src[:-len(src)] + main.src
                try:
                    like = {t.file: diff.compile_template(
                        t, Engine(w.script())) for t in [main] + libs}
                except Exception:
                    continue
            total = w.ref(w.script()).ref.n
            todo = [None] + [c.rnd.randrange(1, total + 1)
                             for _ in range(min(total, faults))]
            for k in todo:
                why, out = wrong(w.codes, 'main', lambda: w.script(k), exact,
                                 stats, like=like)
                c.case(('template', bounded.shape(w.main), k),
                       {'template': w.main.src, 'output': out}
                       if i < 1 else None)
                if why:
                    c.fail(why, dict(w.describe(w.script(k)), output=out))
                    return
    c.stand_in('whole templates using macros of another file',
               '%d renderings, %d annotations; %d with tal:on-error and '
               'without a failure' % tuple(stats))
    if not stats[1]:
        c.undecide('nothing was ever annotated')
