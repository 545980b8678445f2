"""P07: paragraphs are exactly the groups separated by blank lines."""
import re

from .. import gen
from .. import refmodel as rm
from ..gen import Tag
from ..project import one_doc
from . import common

RULE = ("Random sequences of text, single newlines, blank lines (with and "
        "without spaces), inline tags (some with blank lines inside), dashes, "
        "code "
        "tags and tags that stand outside of paragraphs (headings, verbatim, "
        "feature boxes), also inside feature boxes; the p elements of html "
        "and xhtml, the role of code tags and the blank lines of tex are "
        "compared to a reference grouping. Non-trivial: at least two blank "
        "lines and a tag.")

BREAKS = ['\n\n', '\n\n\n', '\n \n', ' \n\n ', '\n\t\n', '\n\n\n\n\n', ' \n \n '
          '\n']


def pieces(c, depth=1):
    """A list of pieces: strings, ('break', s), Tags."""
    out = []

    def one():
        k = c.weighted([(5, 'text'), (4, 'break'), (3, 'tag'), (1, 'code'),
                        (0.7, 'space'), (0.7, 'dash'), (0.7, 'h'), (0.7, 'v'),
                        (0.7 if depth else 0, 'box')])
        if k == 'text':
            return gen.word(c) + c.choice([' ', '', '\n', '. ', '\n '])
        if k == 'space':
            return c.choice([' ', '\n', '  '])
        if k == 'dash':
            return c.choice(['--', ' -- ', '--- ', '\n--', '\u2014', ' \u2013',
                             '\u00a0--\n'])
        if k == 'break':
            return ('break', c.choice(BREAKS))
        if k == 'tag':
            inner = gen.word(c)
            if c.bool(0.2):
                inner += c.choice(BREAKS) + gen.word(c)
            name = c.choice(['b', 'i', 'foo', 'sub'])
            if c.bool(0.3):
                return Tag(name, '', [Tag('code', '', [inner.split()[0]])])
            return Tag(name, '', [inner])
        if k == 'code':
            return Tag('code', '', [gen.word(c)])
        if k == 'h':
            return Tag(c.choice(list(rm.HEAD)), '[nolabel]', [gen.word(c)])
        if k == 'v':
            return Tag(c.choice(['v', 'verbatim']), '', [gen.word(c)])
        return Tag('featurebox', '', pieces(c, depth - 1))
    for x in c.list(one, 0, 12, 6):
        out.append(x)
    return [Tag('b', '', ['s']), 'first', ('break', '\n\n')] + out


def to_source(ps):
    out = []
    for x in ps:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, tuple):
            out.append(x[1])
        else:
            out.append('@' + x.name + x.attrs + '{' + to_source(x.children) +
                       '}')
    return ''.join(out)


def standalone(x):
    return isinstance(x, Tag) and (x.name in rm.HEAD or x.name in
                                   ('v', 'verbatim', 'featurebox'))


def dashes(text):
    """Dashes take the white space around them, within a paragraph."""
    text = re.sub(r'\s*(---|\u2014)\s*', '\u2014', text)
    return re.sub(r'\s*(--|\u2013)\s*', '\u2013', text)


def merge(ps):
    """Merge adjacent text and break it at blank lines."""
    out, text = [], ''

    def flush():
        nonlocal text
        # a blank line: a newline, white space and another newline
        first = True
        for part in re.split(r'\s*\n\s*\n\s*', text):
            if not first:
                out.append(None)
            first = False
            if part:
                out.append(dashes(part))
        text = ''
    for x in ps:
        if isinstance(x, Tag):
            flush()
            out.append(x)
        else:
            text += x if isinstance(x, str) else x[1]
    flush()
    return out


def group(ps):
    groups, cur = [], []
    for x in merge(ps):
        if x is None or standalone(x):
            groups.append(cur)
            cur = []
            if x is not None:
                groups.append(x)
        else:
            cur.append(x)
    groups.append(cur)
    return [g for g in groups if isinstance(g, Tag) or
            any(isinstance(x, Tag) or x.strip() for x in g)]


def inline(nodes, block=False):
    out = []
    for n in nodes:
        if isinstance(n, (str, tuple)):
            out.append(n if isinstance(n, str) else n[1])
        elif n.name == 'code':
            if block:
                out.append(('block', n.children[0]))
            else:
                out.append(rm.el('code', {}, n.children))
        elif n.name in gen.FMT:
            out.append(rm.el(gen.FMT[n.name][1], {}, inline(n.children)))
        else:
            out.append(rm.el('span', {'class': n.name}, inline(n.children)))
    return out


def expected(ps):
    out = []
    for g in group(ps):
        if isinstance(g, Tag):
            if g.name in rm.HEAD:
                out.append(rm.el(rm.HEAD[g.name], {}, g.children))
            elif g.name == 'featurebox':
                out.append(rm.el('div', {'class': 'featurebox'},
                                 expected(g.children)))
            else:
                out.append(rm.el('code', {}, g.children))
            continue
        tags = [x for x in g if isinstance(x, Tag)]
        block = len(tags) == 1 and not any(
            isinstance(x, str) and x.strip() for x in g)
        out.append(rm.el('p', {}, inline(g, block)))
    return out


def simplify(d):
    """Replace highlighted code by a marker."""
    if isinstance(d, str):
        return d
    name, attrs, children = d
    if name == 'div' and attrs.get('class') == 'code':
        return ('block', text_of(d).strip())
    return (name, attrs, [simplify(x) for x in children])


def text_of(d):
    return d if isinstance(d, str) else ''.join(text_of(x) for x in d[2])


def prop(c):
    ps = pieces(c)
    src = to_source(ps)
    c.note(repr(src))
    if sum(isinstance(x, tuple) for x in ps) >= 3 and \
            sum(isinstance(x, Tag) for x in ps) >= 2:
        c.nontrivial(src)
    p, doc = one_doc(c.scratch, src, targets='txt')
    body = doc.context['body']
    want = ('div', {'class': 'body'}, rm.merge_text(expected(ps)))
    for fmt, tree in (('html', rm.parse_html(str(body.html))),
                      ('xhtml', rm.parse_xml(body.xhtml))):
        if fmt == 'html':
            # html parsers close p elements before div elements; use the
            # xml parser on the html without entities
            tree = rm.parse_xml(str(body.html))
        c.eq(simplify(rm.dom(tree)), want, '{} of {!r}'.format(fmt, src))
    # tex: a blank line between adjacent paragraphs of text
    tex = str(body.tex)
    gs = group(ps)
    pos = 0
    for a, b in zip(gs, gs[1:]):
        if isinstance(a, Tag) or isinstance(b, Tag):
            continue
        if not (isinstance(a[-1], str) and a[-1].strip() and
                isinstance(b[0], str) and b[0].strip()):
            continue
        c.check(re.search(re.escape(a[-1].strip()) + r'\s*\n\s*\n\s*' +
                          re.escape(b[0].strip()), tex),
                lambda: 'no blank line between {!r} and {!r} in the tex of '
                '{!r}: {!r}'.format(a[-1], b[0], src, tex))


PARTS = [('paragraphs', prop, 4000, 50000)]
