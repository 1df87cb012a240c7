"""C11: a deck means what it says: parsing, defaults, writing."""
import os

from hypothesis import strategies as st

from pbt import gen, sim
from pbt.core import Prop, require

import dg1d.deck as deckmod

PROP = Prop("C11")
PROP.assumptions = ["Decks are '#heading' lines each followed by one value line, as in the documentation and the "
                    "regression decks; headings may carry trailing text."]

KEYS = {
    "PDE system": "system", "RK scheme": "rk", "riemann solver": "riemann", "initial condition": "ic",
    "number of outputs": "nout", "final time": "finaltime", "Courant-Friedrichs-Lewy condition": "cfl",
    "order": "order", "limiting": "limiting", "enhancement": "enhance", "sensor thresholds": "sensor_thresholds",
}
DEFAULTS = {"system": "advection", "rk": "", "riemann": "roe", "ic": "sinewave", "nout": 10, "finaltime": 1,
            "cfl": 0.5, "order": 1, "limiting": "", "enhance": "", "sensor_thresholds": []}


def number():
    return st.one_of(st.integers(0, 10 ** 6).map(str), gen.logspan(1e-12, 1e12).map(repr),
                     st.floats(1e-300, 1e300).map(repr), st.floats(1e-10, 1e10).map(lambda v: '%.6E' % v))


@st.composite
def value(draw, attr):
    if attr == 'system':
        return draw(st.sampled_from(['advection', 'euler']))
    if attr == 'rk':
        return draw(st.sampled_from(gen.RKS + ['', 'something']))
    if attr == 'riemann':
        return draw(st.sampled_from(gen.RIEMANNS + ['']))
    if attr == 'ic':
        return draw(st.sampled_from(['sinewave 10', 'entrpyw 24', 'scktube 100 0 1 0 1 0.125 0 0.1',
                                     'scktube 7 -0.25 5.99924 19.5975 460.894 5.99242 -6.19633 46.0950', 'simplew 3']))
    if attr in ('nout', 'order'):
        return str(draw(st.integers(0, 1000)))
    if attr in ('finaltime', 'cfl'):
        return draw(number())
    if attr == 'limiting':
        return draw(st.sampled_from(['', 'adaptive_hr', 'none']))
    if attr == 'enhance':
        p = draw(st.integers(0, 5))
        return draw(st.one_of(st.just(''), gen.modes_subset(p).map(sim.enh_str)))
    return ' '.join(draw(st.lists(number(), max_size=3)))


def FREE(key):
    """Text without a hash sign that mentions a heading, and a line a reader may take for its value."""
    return 'see below for the %s of this run\n3' % key


@st.composite
def deck_case(draw):
    names = list(draw(st.permutations(sorted(KEYS))))[:draw(st.integers(0, len(KEYS)))]
    return {"lines": [[k, draw(value(KEYS[k]))] for k in names],
            "again": [[k, draw(value(KEYS[k]))] for k in draw(st.lists(st.sampled_from(sorted(KEYS)), max_size=3))],
            "pad": draw(st.sampled_from(['', '', ' ', '  ', '\t'])),
            "crlf": draw(st.integers(0, 5)) == 0,
            "tail": draw(st.sampled_from(['', ' of the scheme', ' (see documentation)'])),
            "noise": draw(st.lists(st.one_of(st.sampled_from(['', '#', '# a comment', '#unknown key\nfoo', '   ']),
                                         st.sampled_from(sorted(KEYS)).map(FREE), st.sampled_from(sorted(KEYS)).map(FREE)),
                               max_size=3)),
            "newline": draw(st.integers(0, 3)) > 0}


def convert(attr, v):
    if attr in ('nout', 'order'):
        return int(v)
    if attr in ('finaltime', 'cfl'):
        return float(v)
    if attr == 'sensor_thresholds':
        return [float(x) for x in v.split()]
    return v


def expected(case):
    e = dict(DEFAULTS, sensor_thresholds=[])
    for k, v in case["lines"]:
        e[KEYS[k]] = convert(KEYS[k], v)
    return e


def check(d, e, what):
    for a, v in e.items():
        g = getattr(d, a)
        require(type(g) is type(v) or isinstance(g, (int, float)) and isinstance(v, (int, float)),
                lambda: "%s: %s has type %s" % (what, a, type(g).__name__))
        require(g == v, lambda: "%s: %s is %r, expected %r" % (what, a, g, v))


@PROP.check("parse", deck_case(), quick=2500, thorough=60000, shards=2,
            rule="non-trivial: at least two settings in a non-default order or with noise")
def parse(c, ctx):
    nl = '\r\n' if c["crlf"] else '\n'
    txt = ''
    noise = list(c["noise"])
    for i, (k, v) in enumerate(c["lines"]):
        if noise and i % 2 == 0:
            txt += noise.pop().replace('\n', nl) + nl
        txt += '#' + k + c["tail"] + nl + v + c["pad"] + nl
    if not c["newline"] and c["lines"] and c["lines"][-1][1]:
        txt = txt[:-len(nl)]
    with sim.Scratch():
        with open('my.deck', 'w', newline='') as f:
            f.write(txt)
        d = deckmod.Deck()
        check(d, dict(DEFAULTS), "fresh deck")
        d.parser('my.deck')
        check(d, expected(c), "parsed deck")
        # a deck object that is used again keeps what the new deck does not mention
        with open('other.deck', 'w') as f:
            for k, v in c["again"]:
                f.write('#' + k + '\n' + v + '\n')
        d.parser('other.deck')
        check(d, expected(dict(c, lines=c["lines"] + c["again"])), "deck object used for a second deck")
        d = deckmod.Deck()
        with open('other.deck', 'w', newline='') as f:
            f.write(txt + nl + ''.join('#' + k + nl + v + nl for k, v in c["again"]))
        d.parser('other.deck')
        check(d, expected(dict(c, lines=c["lines"] + c["again"])), "deck with repeated headings")
        # a second deck object is not affected by the first
        check(deckmod.Deck(), dict(DEFAULTS), "fresh deck after parsing another")
    ctx.label("n%d" % len(c["lines"]), "crlf" if c["crlf"] else "lf")
    ctx.nontrivial(len(c["lines"]) >= 2)


@PROP.check("write_then_parse", deck_case(), quick=2000, thorough=50000, shards=2,
            rule="non-trivial: at least two settings")
def write_then_parse(c, ctx):
    with sim.Scratch() as wd:
        os.mkdir('sub')
        name = deckmod.write_deck(wd + '/sub', [[k, v] for k, v in c["lines"]])
        require(os.path.realpath(name) == os.path.realpath(wd + '/sub/deck.inp'), lambda: "deck written to %r" % name)
        require(os.listdir('sub') == ['deck.inp'] and sorted(os.listdir('.')) == ['sub'], "write_deck left other files")
        d = deckmod.Deck()
        d.parser(name)
        check(d, expected(c), "written deck")
        # writing again replaces the file
        deckmod.write_deck(wd + '/sub', [["order", "3"]])
        d = deckmod.Deck()
        d.parser(name)
        check(d, dict(DEFAULTS, order=3), "rewritten deck")
    ctx.label("n%d" % len(c["lines"]))
    ctx.nontrivial(len(c["lines"]) >= 2)
