"""C22: the directives of one element take effect in the documented order."""
from checks import bounded, combos, gen


ASPECTS = ['order', 'output', 'globals']


def check(c):
    n = 12 if c.thorough else 1
    ok = bounded.templates(c, combos.pairs(c.rnd), ASPECTS,
                           'up to three directives on one element', faults=2)
    ok = ok and bounded.templates(c, combos.cases(c.rnd, 4000 * n), ASPECTS,
                                  'random directive combinations', faults=1)
    ok = ok and bounded.campaign(
        c, gen.Profile(plain=.05, define=.6, condition=.4, repeat=.4,
                       content=.4, omit=.5, attributes=.5, onerror=.3),
        ASPECTS, 300 * n, 'elements with many directives', faults=3)
