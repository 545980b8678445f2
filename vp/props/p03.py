"""P03: html and xhtml are well formed, escaped and limited to the allowed
elements and attributes; they mirror the structure of the source."""
from .. import refmodel as rm
from ..project import one_doc
from . import common

RULE = ("Random documents of paragraphs, formatting tags, unknown tags with "
        "attributes (some not allowed, some with quotes and markup), symbols, "
        "super/subscripts, inline code, verbatim, feature boxes and headings, "
        "with text full of markup characters; html is parsed by an html "
        "parser and xhtml by a strict xml parser and compared, element by "
        "element, to a reference DOM. Non-trivial: the source has a markup "
        "character and at least two elements below the body.")


def prop(c):
    blocks = rm.blocks(c)
    src = rm.block_source(blocks)
    c.note(repr(src))
    c.check_src = src
    if any(ch in src for ch in '<>&"') and common.count_elements(blocks) >= 2:
        c.nontrivial(src)
    p, doc = one_doc(c.scratch, src, targets='txt')
    body = doc.context['body']
    exp = rm.el('div', {'class': 'body'}, rm.html_blocks(blocks))
    html = str(body.html)
    tree = rm.parse_html(html)
    c.eq(rm.dom(tree), exp, 'html of {!r}'.format(src))
    # white space between words and tags
    texts = rm.flow_texts(blocks)
    c.eq([rm.gaps(t) for t in flow(tree)], [rm.gaps(t) for t in texts],
         'white space in the html of {!r}'.format(src), key='space')
    try:
        tree = rm.parse_xml(body.xhtml)
    except Exception as e:
        c.fail('xhtml of {!r} is not well formed: {}\n{}'.format(
            src, e, body.xhtml))
    c.eq(rm.dom(tree), exp, 'xhtml of {!r}'.format(src))
    # (xhtml may be indented)
    for t, x in zip(texts, flow(tree)):
        c.check(rm.gaps(t) <= rm.gaps(x), lambda: 'white space of {!r} in '
                'the xhtml of {!r}: {!r}'.format(t, src, x), key='space')


def flow(tree):
    """The texts of the paragraphs and headings of a tree."""
    return [rm.itertext(e) for e in tree.iter()
            if e.tag in ('p', 'h1', 'h2', 'h3', 'h4', 'h5')]


PARTS = [('dom', prop, 6000, 60000)]
