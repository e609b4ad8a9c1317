"""Run the real compiler and interpreter next to the reference semantics."""
import copy
import io
import re
import sys

from zope.tal import taldefs
from zope.tal.htmltalparser import HTMLParseError, HTMLTALParser
from zope.tal.talgenerator import TALGenerator
from zope.tal.talinterpreter import TALInterpreter
from zope.tal.talparser import TALParser

from checks.refsem import (BaseBoom, Boom, Engine, MetalError, Ref,
                           ScopeUnderflow)
from checks.tmpl import VOID


class CompileFailed(Exception):
    pass


def compile_source(src, xml, file, compiler):
    gen = TALGenerator(compiler, xml=1 if xml else 0, source_file=file)
    parser = TALParser(gen) if xml else HTMLTALParser(gen)
    parser.parseString(src)
    return parser.getCode()


def compile_template(t, compiler, file=None):
    return compile_source(t.src, t.xml, file if file is not None else t.file,
                          compiler)


class Run:
    """One rendering by the code under test."""

    def __init__(self, main, script, others=(), opts=None, codes=None,
                 nofile=False):
        self.engine = Engine(script)
        if codes is None:
            codes = {}
            for t in (main,) + tuple(others):
                codes[t.file] = compile_source(
                    t.src, t.xml, None if nofile else t.file, self.engine)
        self.codes = codes
        self.engine.codes = codes
        self.out = io.StringIO()
        self.exc = None
        program, macros = codes[main.file]
        o = {'wrap': 0, 'strictinsert': 1}
        o.update(opts or {})
        self.interp = None
        try:
            self.interp = TALInterpreter(program, macros, self.engine,
                                         self.out, **o)
        except Exception as e:
            self.exc = e

    def go(self):
        try:
            if self.interp is not None:
                self.interp()
        except (Exception, BaseBoom) as e:
            self.exc = e
        self.text = self.out.getvalue()
        return self


class RefRun:
    def __init__(self, main, script, opts=None):
        o = opts or {}
        self.ref = Ref(main, script, tal=o.get('tal', 1),
                       metal=o.get('metal', 1), showtal=o.get('showtal', -1),
                       limit=o.get('stackLimit', 100))
        self.exc = None

    def go(self):
        try:
            self.ref.run()
        except (Boom, BaseBoom, MetalError) as e:
            self.exc = e
        self.text = ''.join(self.ref.bufs[0])
        return self


TAG = re.compile(
    r'<(/?)([A-Za-z][\w:.-]*)((?:\s+[^\s=<>"/]+(?:="[^"]*")?)*)\s*(/?)>')
ATTR = re.compile(r'\s+([^\s=<>"/]+)(?:="([^"]*)")?')
ENT = re.compile(r'&(amp|lt|gt|quot|apos|#34|#x22|#39|#x27);')
_ents = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', '#34': '"',
         '#x22': '"', 'apos': "'", '#39': "'", '#x27': "'"}


def decode(s):
    return ENT.sub(lambda m: _ents[m.group(1)], s)


def canon(text):
    """Output up to attribute order, empty-tag style and value escaping."""
    def tag(m):
        end, name, attrs, selfc = m.groups()
        if end:
            return '' if name in VOID else '</%s>' % name
        al = sorted((n, '' if v is None else repr(decode(v)))
                    if m2 is None else m2
                    for n, v, m2 in [(a.group(1), a.group(2), None)
                                     for a in ATTR.finditer(attrs)])
        res = '<%s%s>' % (name, ''.join(' %s=%s' % a for a in al))
        if selfc and name not in VOID:
            res += '</%s>' % name
        return res
    return TAG.sub(tag, text)


def canon_event(e):
    if e[0] != 'translate':
        return e
    return (e[0], canon(e[1]), e[2],
            tuple((k, canon(str(v))) for k, v in e[3]),
            e[4] if e[4] is None else canon(str(e[4])))


def evals(log, kinds=None):
    return [canon_event(e[0]) for e in log
            if kinds is None or e[0][0] in kinds]


EXC = {Boom: Boom, BaseBoom: BaseBoom, MetalError: taldefs.METALError}


def exc_kind(e):
    if e is None:
        return None
    if isinstance(e, (MetalError, taldefs.METALError)):
        return 'METALError'
    return type(e).__name__


def snapshot(codes):
    return {f: copy.deepcopy(c) for f, c in codes.items()}


def compare(run, ref, aspects):
    """First difference in one of the aspects, or None."""
    a, b = exc_kind(run.exc), exc_kind(ref.exc)
    if aspects and a != b:
        return 'ends with %s (%s) instead of %s' % (
            a, run.exc, 'normal output' if b is None else b)
    for asp in aspects:
        if asp == 'output':
            if run.exc is None and canon(run.text) != canon(ref.text):
                return 'output is %r instead of %r' % (run.text, ref.text)
        elif asp == 'evals':
            x = [e for e in evals(run.engine.log)
                 if e[0] not in ('translate',)]
            y = [e for e in evals(ref.ref.log) if e[0] != 'translate']
            if x != y:
                return diff_list('expressions evaluated', x, y)
        elif asp == 'order':
            x, y = evals(run.engine.log), evals(ref.ref.log)
            if x != y:
                return diff_list('engine calls', x, y)
        elif asp == 'translate':
            x = evals(run.engine.log, ('translate',))
            y = evals(ref.ref.log, ('translate',))
            if x != y:
                return diff_list('translations', x, y)
        elif asp == 'file':
            for e, r in zip(run.engine.log, ref.ref.log):
                if e[0][0] != r[0][0] or r[1] is None:
                    break
                if e[2] != r[1].tmpl.file:
                    return 'file %r reported at %r of <%s> in %r' % (
                        e[2], e[0], r[1].name, r[1].tmpl.file)
        elif asp == 'position':
            for e, r in zip(run.engine.log, ref.ref.log):
                if e[0][0] != r[0][0]:
                    break
                if r[2] and tuple(e[1] or ()) != r[1].pos:
                    return 'position %r reported at %r of <%s> at %r' % (
                        e[1], e[0], r[1].name, r[1].pos)
        elif asp == 'scopes':
            calls = run.engine.scope_calls
            depth = 0
            for c in calls:
                depth += c
                if depth < 0:
                    return 'endScope called without beginScope'
            if run.exc is None and depth:
                return '%d scopes left open' % depth
            if isinstance(run.exc, ScopeUnderflow):
                return 'endScope called without beginScope'
        elif asp == 'globals':
            x = {k: v for k, v in run.engine.vars.globals.items()}
            y = {k: v for k, v in ref.ref.vars.globals.items()}
            if str(x) != str(y):
                return 'globals are %r instead of %r' % (x, y)
        elif asp == 'rest':
            i = run.interp
            left = [getattr(i, n, None) for n in (
                'macroStack', 'i18nStack', '_stream_stack', 'inUseDirective',
                'level')]
            if any(left):
                return 'state left behind: %r' % (left,)
            if run.exc is None and (
                    getattr(getattr(i, 'i18nContext', None), 'parent', None)
                    is not None or getattr(i, 'scopeLevel', 0)):
                return 'translation context or scope left open'
    return None


def diff_list(what, x, y):
    for k in range(max(len(x), len(y))):
        a = x[k] if k < len(x) else 'nothing'
        b = y[k] if k < len(y) else 'nothing'
        if a != b:
            return '%s: number %d is %r instead of %r' % (what, k + 1, a, b)
    return None


def describe(main, others, script, opts):
    return {'template': main.src, 'mode': 'xml' if main.xml else 'html',
            'file': main.file,
            'others': {t.file: t.src for t in others},
            'values': [str(v) for v in script.lits],
            'failing evaluation': script.fail_at,
            'exception': script.exc.__name__, 'options': opts or {}}
