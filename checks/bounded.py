"""Bounded comparison with the reference semantics, shared by the checks."""
import re

from checks import diff, gen
from checks.refsem import BASE_BOOMS, BOOMS, Boom, Script
from checks.tmpl import Template, elements

BASE = dict()
I18N = dict(translate=.35, domain=.2, name=.3, i18nattrs=.2, data=.4,
            message=.15)
MACRO = dict(macros=.5, extend=.5)
ALL = dict(translate=.25, domain=.2, name=.3, i18nattrs=.2, data=.4,
           message=.15, macros=.3, extend=.5)


def shape(t):
    """Skeleton of a template: elements and directives, no values."""
    return tuple((e.name, tuple(sorted(n for n, v in e.attrs)))
                 for e in elements(t.nodes))


class Work:
    """One generated template set with its compiled form."""

    def __init__(self, rnd, prof, xml, lits=None, depth=2, width=2,
                 nofile=False):
        g = gen.Gen(rnd, prof, xml)
        if lits is not None:
            g.lits = lits
        self.g = g
        self.others = []
        if prof.p['macros']:
            self.others = [g.library('lib', ['m1', 'm2', 'm3'])]
        self.main = Template(g.nodes(depth, False, width), xml, 'main')
        self.codes = None
        self.nofile = nofile

    def script(self, fail_at=None, exc=Boom, **kw):
        return Script(self.g.lits, fail_at, exc, [self.main] + self.others,
                      **kw)

    def compile(self):
        run = diff.Run(self.main, self.script(), self.others,
                       nofile=self.nofile)
        self.codes = run.codes

    def run(self, script, opts=None):
        return diff.Run(self.main, script, self.others, opts,
                        self.codes).go()

    def ref(self, script, opts=None):
        return diff.RefRun(self.main, script, opts).go()

    def describe(self, script, opts=None):
        return diff.describe(self.main, self.others, script, opts)


def campaign(c, prof, aspects, n, what, faults=0, opts=None, post=None,
             lits=None, translate=None, compile_errors=False, depth=2,
             nofile=False):
    """Compare n random templates (and up to `faults` injected faults each)
    with the reference.  Returns False after a failure."""
    skipped = 0
    runs = 0
    for i in range(n):
        xml = c.rnd.random() < .4
        w = Work(c.rnd, prof, xml, lits, depth, nofile=nofile)
        try:
            w.compile()
        except Exception as e:
            if compile_errors:
                c.fail('valid template is rejected: %s: %s' % (
                    type(e).__name__, e), w.describe(w.script(), opts))
                return False
            skipped += 1
            continue
        o = opts(c.rnd) if callable(opts) else opts
        todo = [None]
        first = True
        sh = shape(w.main)
        while todo:
            k = todo.pop()
            exc = c.rnd.choice(BOOMS if (k or 0) % 2 else BASE_BOOMS)
            s = w.script(k, exc, translate=translate)
            ref = w.ref(s, o)
            run = w.run(s, o)
            runs += 1
            d = diff.compare(run, ref, aspects)
            if d is None and post is not None:
                d = post(w, run, ref, s, o)
            c.case((what, sh, k), {'template': w.main.src,
                                   'output': run.text[:300],
                                   'fault at': k} if i < 2 else None)
            if d:
                c.fail(d, w.describe(s, o))
                return False
            if first:
                first = False
                m = ref.ref.n
                if faults and m:
                    if m <= faults:
                        todo = list(range(1, m + 1))
                    else:
                        todo = c.rnd.sample(range(1, m + 1), faults)
    c.stand_in(what, '%d random templates of up to 3 levels (HTML and XML), '
               '%d renderings, fault positions per template: %d'
               % (n, runs, faults))
    if skipped:
        c.undecide('%s: %d of %d generated templates do not compile'
                   % (what, skipped, n))
    return True


def templates(c, cases, aspects, what, opts=None, faults=0, lits=(),
              translate=None, post=None):
    """Compare given templates: (nodes, others, xml) or (nodes, xml)."""
    n = 0
    for case in cases:
        nodes, others, xml = case if len(case) == 3 else (
            case[0], [], case[1])
        main = Template(nodes, xml, 'main')
        w = object.__new__(Work)
        w.main, w.others, w.nofile = main, others, False
        w.g = type('G', (), {'lits': list(lits)})
        w.codes = None
        try:
            w.compile()
        except Exception as e:
            c.fail('valid template is rejected: %s: %s' % (
                type(e).__name__, e), w.describe(w.script(), opts))
            return False
        todo = [None]
        first = True
        while todo:
            k = todo.pop()
            s = w.script(k, BOOMS[n % len(BOOMS)], translate=translate)
            ref, run = w.ref(s, opts), w.run(s, opts)
            n += 1
            d = diff.compare(run, ref, aspects)
            if d is None and post is not None:
                d = post(w, run, ref, s, opts)
            c.case((what, shape(main), main.src, k),
                   {'template': main.src, 'output': run.text[:300]})
            if d:
                c.fail(d, w.describe(s, opts))
                return False
            if first and faults:
                first = False
                todo = list(range(1, min(ref.ref.n, faults) + 1))
    c.stand_in(what, '%d renderings of enumerated templates' % n)
    return True


START = re.compile(r'<([A-Za-z][\w:.-]*)((?:\s+[^\s=<>"/]+(?:="[^"<>]*")?)*)'
                   r'\s*/?>')
