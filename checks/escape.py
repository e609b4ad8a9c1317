"""Escaping of text and attribute values, decided with transducers."""
import time

from pyvc import fst, strfst
from pyvc.core import Unsupported, z3

TEXT = r'(?s)(?:[^&<>]|&(?:amp|lt|gt);)*\Z'
THREE = [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">")]
ATTR = r'(?s)"(?:[^&<>"]|&(?:amp|lt|gt|quot|apos|#\d+|#x[0-9a-f]+);)*"\Z'
FIVE = [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", '"'),
        ("&#34;", '"'), ("&apos;", "'"), ("&#39;", "'"), ("&#x27;", "'")]
_memo = {}


def decide(I, t, v, kind):
    """[(obligation, status, seconds)] for: t escapes v."""
    var = z3.Const('escaped!var', z3.StringSort())
    term = z3.substitute(t, (v, var)) if not t.eq(v) else var
    pc = []
    for c in I.pc:
        d = z3.substitute(c, (v, var))
        if not d.eq(c):
            pc.append(d)
    key = (term.sexpr(), tuple(c.sexpr() for c in pc), kind)
    if key not in _memo:
        _memo[key] = _decide(I.x, term, var, pc, kind)
    return _memo[key]


def _decide(x, term, var, pc, kind):
    shape, pairs, chars = {
        'text': (TEXT, THREE, '&<>;ampltg'),
        'attr': (ATTR, FIVE, '&<>";#ampltgquos\'x0123')}[kind]
    shape, dec = strfst.regex(shape), strfst.subst(pairs)
    res = []
    t0 = time.time()
    try:
        f = strfst.of_term(x, var, term, pc, [shape, dec], chars)
        al = f.alpha
        ok = fst.image_included(f.fst, al, shape) is None
        t1 = time.time()
        res.append(('no raw markup, for every string',
                    'discharged' if ok else 'refuted', t1 - t0))
        want = fst.affix(al, '"', '"') if kind == 'attr' else \
            fst.identity(al)
        want = fst.restrict_by(want, f.fst)
        ok = fst.equivalent(fst.compose(f.fst, fst.regex_sub(al, dec)),
                            want) is None
        res.append(('undoing the escapes gives back the value',
                    'discharged' if ok else 'refuted', time.time() - t1))
    except Unsupported as e:
        res.append(('escaping (%s)' % e, 'unknown', time.time() - t0))
    return res
