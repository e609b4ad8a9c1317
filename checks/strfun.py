"""String functions of the code under verification as transducers."""
import time

from pyvc import fst, strfst
from pyvc.core import PathEnd, Py, Sym, SymRaise, Unsupported, Union
from pyvc.explore import Explorer, PartsModel
from pyvc.core import Ref, HObj


def extract(call, machines=(), chars="", sep=False):
    """Evaluate call(I, s) for a symbolic string s; returns (Explorer,
    strfst.Function).  Raises Unsupported if the code is out of reach."""
    x = Explorer()
    paths = []
    var = []

    def entry(I):
        s = I.fstr("s")
        var.append(s.t)
        try:
            v = call(I, s)
        except SymRaise as e:
            raise Unsupported("raises %r" % e.exc)
        if isinstance(v, Union):
            v = I.each(v, lambda a: a)
        if isinstance(v, Ref) and isinstance(I.cell(v), HObj) and \
                isinstance(I.cell(v).model, PartsModel):
            t = I.cell(v).model.t
        else:
            t = I.term(v, "str")
        paths.append(([c for c in I.pc if c.get_id() not in x.facts], t))
    x.run(entry, "extraction")
    if x.unsupported:
        raise Unsupported("; ".join(x.unsupported[:3]))
    f = strfst.Function(x, var[0], paths, machines, chars, sep)
    if f.fst is None:
        raise Unsupported("no path")
    return x, f


def crosscheck(f, real, rnd, n, alphabet_bias="", enc=None):
    """The transducer agrees with CPython on random words."""
    letters = [c for c in f.alpha.letters if c != fst.SEP]
    pool = letters + list(alphabet_bias) * 4
    for _ in range(n):
        w = [rnd.choice(pool) for _ in range(rnd.randrange(10))]
        out = f.fst.run(w)
        want = real("".join(w))
        want = tuple(want) if enc is None else enc(want)
        if out != {want}:
            return "".join(w), out, want
    return None


def enc_list(parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(fst.SEP)
        out.extend(p)
    return tuple(out)


def words(cex):
    """Candidate strings from a counterexample of the back end."""
    if cex is None:
        return []
    if isinstance(cex, (list, tuple)) and cex and isinstance(
            cex[0], (list, tuple)):
        return ["".join(w) for w in cex]
    return ["".join(cex)]


def decide(c, name, fn, confirm, backend="fst"):
    """One transducer obligation.  fn() returns None (holds) or a word;
    confirm(s) says how the real code fails on s, or None."""
    t = time.time()
    try:
        cex = fn()
    except Unsupported as e:
        c.obligation(name, None, backend, time.time() - t, e)
        return None
    dt = time.time() - t
    if cex is None:
        c.obligation(name, True, backend, dt)
        return True
    for s in words(cex):
        why = confirm(s)
        if why:
            c.obligation(name, False, backend, dt, {"input": s, "why": why})
            c.fail("%s: %s" % (name, why), {"string": s})
            return False
    c.obligation(name, False, backend, dt, {"candidates": words(cex)})
    return False
