"""How directive values are to be taken apart, and whether the patterns of the
code do so (decided for strings of any length by pyvc.rxeq)."""
import re

from pyvc import fst, rxeq

NAME = "[a-zA-Z_][-a-zA-Z0-9_]*"
#: what: (pattern, how it is matched)
SPEC = {
    'name': (NAME, 'fullmatch'),
    'name at the beginning': (NAME, 'match'),
    # a name, white space, and the expression
    'repeat': (r"(?s)\s*(%s)\s+(.*)" % NAME, 'fullmatch'),
    'define': (r"(?s)\s*(?:(global|local)\s+)?(%s)\s+(.*)" % NAME,
               'fullmatch'),
    # a word and what follows it
    'attribute': (r"(?s)\s*(\S+)\s+(\S.*)", 'fullmatch'),
    'substitution': (r"(?s)\s*(?:(text|structure)\s+)?(.*)", 'fullmatch'),
    # no more than blanks; text up to the last line break and blanks
    'blanks': (r"[ \t]*", 'fullmatch'),
    'line end': (r"(?s)(.*?)(\r?\n[ \t]*)", 'fullmatch'),
    'white space': (r"\s*", 'fullmatch'),
    'white space at the end': (r"\s+\Z", 'search'),
}
STRIPPED = r'(?s)(?:\S(?:.*\S)?)?\Z'

_memo = {}


def differs(what, pat, how, stripped=False):
    """None, or a string the pattern of the code takes apart in another way
    (False if that cannot be told)."""
    key = what, pat, how, stripped
    if key not in _memo:
        src, h = SPEC[what]
        ref = re.compile(src)
        try:
            if 'search' in (h, how):
                # only the very same pattern is known
                raise_if_other(ref, h, pat, how)
                r = None
            else:
                r = rxeq.difference(ref, h, pat, how,
                                    STRIPPED if stripped else None)
        except fst.Unsupported:
            r = False
        if ref.groups != pat.groups:
            r = False
        _memo[key] = r
    return _memo[key]


def raise_if_other(ref, h, pat, how):
    if (h, ref.pattern, ref.flags) != (how, pat.pattern, pat.flags):
        raise fst.Unsupported('search')


def recognise(pat, how, stripped=False, among=SPEC):
    """What the pattern is for."""
    for what in among:
        if differs(what, pat, how, stripped) is None:
            return what
    return None


def spec(what):
    src, how = SPEC[what]
    return re.compile(src), how
