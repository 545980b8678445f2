"""P08: lists keep the order, text and nesting of their items."""
from .. import gen
from .. import refmodel as rm
from ..gen import Tag
from ..project import one_doc
from . import common

RULE = ("Random lists (itemised and ordered, all names) with nested levels, "
        "both bullets, base indents, continuation lines, blank lines between "
        "items (with and without spaces), inline tags and markup characters; "
        "html and xhtml are compared to the reference nesting of list "
        "elements, tex to the reference bullet levels and txt to the words. "
        "A second part uses arbitrary indents and checks order and text. "
        "Non-trivial: at least three items on two levels.")

NAMES = {'list': ('ul', 'itemize'), 'orderedlist': ('ol', 'enumerate'),
         'outline': ('ol', 'enumerate'), 'List': ('ul', 'itemize')}
TEXT = list('abc xyz 019 .,;()!?') + ['&', '<', '>', 'é', 'a-b', 'x*y', "#"]


def words(c):
    t = c.text(TEXT, 1, 10).strip()
    # an item does not start with a bullet
    return t if t and t[0] not in '-*' else 'w' + t


def item(c):
    nodes = [words(c)]
    for _ in range(c.weighted([(3, 0), (2, 1), (1, 2)])):
        nodes.append(Tag(c.choice(['b', 'i', 'foo', 'sup']), '',
                         [words(c)]))
        if c.bool(0.6):
            nodes.append(c.choice([' ', ', ', '']) + words(c))
    return gen.merge(nodes)


def layout(c, levels):
    """The source of the list and its items."""
    base = c.int(0, 5)
    name = c.choice(list(NAMES))
    out = [c.choice(['\n', '', ' \n', '\n  \n', '   \n'])]
    if out[0] == '' and base:
        out[0] = '\n'
    items = []
    for k, lv in enumerate(levels):
        nodes = item(c)
        indent = ' ' * (base + lv)
        src = gen.source(nodes)
        sep = c.choice([' ', ' ', '  ', ''])
        cont = ''
        if c.bool(0.25):
            cont = words(c)
            src += c.choice(['\n' + indent + '  ', '\n ', '\n\n  ',
                             '\n' + indent + '    ']) + cont
            nodes = gen.merge(nodes + [' ' + cont])
        out.append(indent + c.choice('-*') + sep + src)
        out.append(c.choice(['\n', '\n', '\n', '\n\n', '\n   \n', '\n \n\n',
                             '  \n', '\n\t\n']))
        items.append(nodes)
    out[-1] = c.choice(['\n', '', '\n  ', ' '])
    return name, ''.join(out), items


def inline(nodes):
    return rm.html_inline(nodes)


def nest(kind, entries):
    """Nested list elements of [(level, nodes)]; entries start at the lowest
    level."""
    children = []
    i = 0
    base = entries[0][0]
    while i < len(entries):
        lv, nodes = entries[i]
        if lv == base:
            children.append(rm.el('li', {}, inline(nodes)))
            i += 1
        else:
            j = i
            while j < len(entries) and entries[j][0] > base:
                j += 1
            children.append(nest(kind, entries[i:j]))
            i = j
    return rm.el(kind, {}, children)


def wellformed(c):
    n = c.int(1, 7)
    levels = [0]
    for _ in range(n - 1):
        levels.append(c.int(0, min(levels[-1] + 1, 4)))
    name, text, items = layout(c, [2 * lv for lv in levels])
    src = 't @' + name + '{' + text + '} u'
    c.note(repr(src))
    if n >= 3 and len(set(levels)) > 1:
        c.nontrivial(src)
    p, doc = one_doc(c.scratch, src, targets='txt')
    body = doc.context['body']
    kind, style = NAMES[name]
    want = nest(kind, list(zip(levels, items)))
    for fmt, out in (('html', str(body.html)), ('xhtml', str(body.xhtml))):
        tree = rm.parse_xml(out)
        par = rm.dom(tree)[2][0]
        got = [x for x in par[2] if not isinstance(x, str)]
        c.eq(got, [want], '{} of {!r}'.format(fmt, src))
    # the words of an item stay apart
    tree = rm.parse_xml(str(body.xhtml))
    got = [e for e in tree.iter('li')]
    for e, nodes in zip(got, items):
        if len(nodes) == 1:
            c.eq(common.collapse(rm.itertext(e)), common.collapse(nodes[0]),
                 'text of an item of {!r}'.format(src))
    tex = str(body.tex)
    want_tex = ('t\\begin{easylist}[' + style + ']' +
                ''.join('§' * (lv + 1) + rm.tex_inline(nodes)
                        for lv, nodes in zip(levels, items)) +
                '\\end{easylist}u')
    c.eq(common.squeeze(tex), common.squeeze(want_tex),
         'tex of {!r}'.format(src))
    # every item of tex is on a line of its own
    lines = [x for x in tex.splitlines() if x.lstrip().startswith('§')]
    c.eq([len(x.split(' ')[0]) for x in lines], [lv + 1 for lv in levels],
         'levels in the tex of {!r}'.format(src))
    txt = common.squeeze(str(body.default))
    c.eq(txt, common.squeeze('t' + ''.join(map(rm.txt_inline, items)) + 'u'),
         'txt of {!r}'.format(src))


def anyindent(c):
    n = c.int(1, 7)
    indents = [c.int(0, 9) for _ in range(n)]
    name, text, items = layout(c, indents)
    src = 't @' + name + '{' + text + '} u'
    c.note(repr(src))
    if n >= 3:
        c.nontrivial(src)
    p, doc = one_doc(c.scratch, src, targets='txt')
    body = doc.context['body']
    for fmt, out in (('html', str(body.html)), ('xhtml', str(body.xhtml))):
        tree = rm.parse_xml(out)
        got = [common.squeeze(rm.itertext(e)) for e in tree.iter('li')]
        c.eq(got, [common.squeeze(rm.txt_inline(x)) for x in items],
             '{} of {!r}'.format(fmt, src))
    # deeper indents never give a lower level
    tags = [t for t in body.flatten(filter_tags=True)
            if t.name == 'listitem']
    levels = [t.attributes['level'] for t in tags]
    lo = min(indents)
    c.eq(levels, [(i - lo + 1) // 2 for i in indents],
         'levels of {!r}'.format(src))


PARTS = [('nested', wellformed, 2500, 30000), ('indent', anyindent, 800, 8000)]
