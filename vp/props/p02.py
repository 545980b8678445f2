"""P02: no target drops, duplicates or reorders the text of the source."""
from .. import gen
from .. import refmodel as rm
from ..project import one_doc
from . import common

RULE = ("Random documents of nested formatting tags, unknown tags, symbols, "
        "super/subscripts, code, verbatim, boxes and headings; the words of "
        "the txt, html and xhtml renderings (tags and whitespace removed) "
        "have to equal the text of the generated tree, and the words of tex "
        "have to appear in it in order. Non-trivial: at least three "
        "elements, one of them nested.")


def subsequence(words, text):
    pos = 0
    for w in words:
        i = text.find(w, pos)
        if i < 0:
            return w
        pos = i + len(w)
    return None


def leaves(blocks):
    out = []

    def walk(nodes):
        for n in nodes:
            if isinstance(n, str):
                if n.strip():
                    out.append(common.squeeze(n))
            elif n.name.lower() == 'supsub':
                out.extend(x.strip() for x in n.children[0].split('&&'))
            else:
                walk(n.children)
    for b in blocks:
        if b[0] == 'v':
            out.append(common.squeeze(b[2]))
        elif b[0] == 'box':
            out.extend(leaves(b[2]))
        else:
            walk(b[-1])
    return out


def prop(c):
    blocks = rm.blocks(c, hi=5, depth=2)
    src = rm.block_source(blocks)
    c.note(repr(src))
    if common.count_elements(blocks) >= 3 and any(
            b[0] == 'box' or (b[0] == 'p' and gen.depth_of(b[1]) > 1)
            for b in blocks):
        c.nontrivial(src)
    p, doc = one_doc(c.scratch, src, targets='txt')
    body = doc.context['body']
    exp_txt = common.squeeze(rm.txt_blocks(blocks))
    c.eq(common.squeeze(str(body.default)), exp_txt, 'txt of {!r}'.format(src))
    exp_html = common.squeeze(rm.txt_blocks(blocks, lambda s: rm.SYMBOLS[s])
                              ).replace('&&', '')
    html = rm.itertext(rm.parse_html(str(body.html)))
    xhtml = rm.itertext(rm.parse_xml(body.xhtml))
    for name, text in (('html', html), ('xhtml', xhtml)):
        c.eq(common.squeeze(text).replace('&&', ''), exp_html,
             '{} text of {!r}'.format(name, src))
    tex = common.squeeze(str(body.tex))
    missing = subsequence(leaves(blocks), tex)
    c.check(missing is None, 'tex of {!r} lacks {!r} (in order):\n{}'.format(
        src, missing, tex))


PARTS = [('text', prop, 3000, 40000)]
