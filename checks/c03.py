"""C03: static attribute values keep their meaning and stay well-formed."""
import re

from pyvc import fst, strfst
from pyvc.core import Py, Unsupported
from checks import strfun

GOOD = (r'(?s)(?:[^&<>"]|&(?:(?i:[A-Z][A-Z0-9]*)|#[0-9]+|'
        r'#(?i:X[0-9A-F]+));)*\Z')
ASCII_GOOD = (r'(?s)(?:[^&<>"]|&(?:[A-Za-z][A-Za-z0-9]*|#[0-9]+|'
              r'#[xX][0-9A-Fa-f]+);)*\Z')
BASIC = [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", '"')]
_good = re.compile(GOOD)
_ascii = re.compile(ASCII_GOOD)


def decode(s):
    return re.sub("&(amp|lt|gt|quot);",
                  lambda m: {"amp": "&", "lt": "<", "gt": ">",
                             "quot": '"'}[m.group(1)], s)


def wrong(value, written):
    """How the written form of a static value breaks the property."""
    if not _good.match(written):
        return "value %r is written %r, which is not well-formed" % (
            value, written)
    if _ascii.match(value) and written != value:
        return "valid value %r is changed to %r" % (value, written)
    if decode(written) != decode(value):
        return "value %r is written %r, which means %r" % (
            value, written, decode(written))
    return None


def render_static(value):
    """What the real compiler and interpreter write for <a x=value>."""
    from checks import real
    out = real.render_elements([("a", [("x", value)])])
    m = re.match(r'(?s)<a x="(.*)"></a>\Z', out)
    return m.group(1) if m else None


def check(c):
    from zope.tal import taldefs
    fn = taldefs.attrEscape
    good, valid = strfst.regex(GOOD), strfst.regex(ASCII_GOOD)
    dec = strfst.subst(BASIC)

    def confirm(s):
        return wrong(s, fn(s))

    try:
        x, f = strfun.extract(lambda I, s: I.call(Py(fn), [s]),
                              [good, valid, dec], '&<>";#ampltgquotxX')
        c.under_contract(fn)
        c.inlined |= x.inlined
        al = f.alpha
        bad = strfun.crosscheck(f, fn, c.rnd, 3000 if not c.thorough
                                else 30000, '&;#xa1')
        if bad:
            raise Unsupported("engine disagrees with CPython on %r" % (bad,))
        strfun.decide(
            c, "attrEscape: result is well-formed for every string",
            lambda: fst.image_included(f.fst, al, good), confirm)
        strfun.decide(
            c, "attrEscape: well-formed values are unchanged",
            lambda: fst.equivalent(
                fst.restrict(f.fst, al, valid),
                fst.restrict(fst.identity(al), al, valid)), confirm)
        d = fst.regex_sub(al, dec)
        strfun.decide(
            c, "attrEscape: decoded text is the same",
            lambda: fst.equivalent(fst.compose(f.fst, d), d), confirm)
    except (Unsupported, AttributeError) as e:
        c.undecide("attrEscape: %s" % e)
    # bounded: through compiler and interpreter
    pool = ["&", "<", ">", '"', "#", ";", "x", "X", "amp", "lt", "quot", "a",
            "1", "F", "z", " ", "\n", "é", "'", "&amp;", "&#65;", "&#x41;",
            "İ", "ſ", "&lt", "&#x;", "&#;"]
    n = 1500 if not c.thorough else 30000
    for i in range(n):
        v = "".join(c.rnd.choice(pool) for _ in range(c.rnd.randrange(7)))
        w = render_static(v)
        c.case(re.sub(r"\w", "w", v), {"value": v, "written": w})
        if w is None:
            c.fail("static value %r is not written as an attribute" % v,
                   {"value": v})
            break
        why = wrong(v, w)
        if why:
            c.fail(why, {"value": v})
            break
    c.stand_in("value as written by compiler and interpreter in a start tag",
               "%d random values of up to 6 pieces" % n)
    c.assume("str.replace and re.Pattern.sub behave as documented "
             "(cross-checked on random words on every run)")
