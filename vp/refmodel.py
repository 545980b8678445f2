"""Reference renderings of generated documents.

A document is a list of blocks:
  ('p', nodes)          a paragraph of inline nodes
  ('v', name, text)     a verbatim tag
  ('box', name, blocks) a feature box
  ('h', name, nodes)    a heading without a label
Inline nodes are strings and gen.Tag objects.
"""
import re

import lxml.etree

from . import gen
from .gen import Tag

SYMBOLS = {'alpha': 'α', 'beta': 'β', 'Omega': 'Ω', 'times': '×', 'gamma': 'γ',
           'infin': '∞', 'larr': '←', 'deg': '°'}
HEAD = {'part': 'h1', 'chapter': 'h2', 'section': 'h3', 'subsection': 'h4',
        'subsubsection': 'h5'}
BOX = {'featurebox': ('featurebox', 'featurebox'),
       'examplebox': ('featurebox examplebox', 'examplebox'),
       'problembox': ('featurebox problembox', 'problembox')}


def block_source(blocks):
    out = []
    for b in blocks:
        if b[0] == 'p':
            out.append(gen.source(b[1]))
        elif b[0] == 'v':
            out.append('@' + b[1] + '{' + b[2] + '}')
        elif b[0] == 'box':
            out.append('@' + b[1] + '{' + block_source(b[2]) + '}')
        elif b[0] == 'h':
            out.append('@' + b[1] + '[nolabel]{' + gen.source(b[2]) + '}')
    return '\n\n'.join(out)


# -- html

def el(name, attrs=None, children=()):
    return (name, dict(attrs or {}), merge_text(children))


def merge_text(children):
    out = []
    for x in children:
        if isinstance(x, str):
            x = re.sub(r'\s+', '', x)
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return out


def html_inline(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
            continue
        low = n.name.lower()
        if low in gen.FMT:
            out.append(el(gen.FMT[low][1], {}, html_inline(n.children)))
        elif low in ('symbol', 'smb'):
            out.append(SYMBOLS[n.children[0].strip()])
        elif low == 'supsub':
            a, b = n.children[0].split('&&')
            out.append(el('span', {'class': 'supsub'},
                          [a.strip(), el('br'), b.strip()]))
        elif low == 'code':
            out.append(el('code', {}, n.children))
        else:
            attrs = span_attrs(n)
            out.append(el('span', attrs, html_inline(n.children)))
    return out


def inline_text(nodes):
    """The shown text of inline nodes with its white space."""
    out = ''
    for n in nodes:
        if isinstance(n, str):
            out += n
        elif n.name.lower() in ('symbol', 'smb'):
            out += SYMBOLS[n.children[0].strip()]
        elif n.name.lower() == 'supsub':
            out += ''.join(x.strip() for x in n.children[0].split('&&'))
        elif n.name.lower() == 'code':
            out += ''.join(n.children)
        else:
            out += inline_text(n.children)
    return out


def flow_texts(blocks):
    """The texts of paragraphs and headings."""
    out = []
    for b in blocks:
        if b[0] in ('p', 'h'):
            out.append(inline_text(b[1] if b[0] == 'p' else b[2]))
        elif b[0] == 'box':
            out += flow_texts(b[2])
    return out


def gaps(text):
    """Where a text has white space: the numbers of characters before."""
    out, n = set(), 0
    for ch in text:
        if ch.isspace():
            out.add(n)
        else:
            n += 1
    return out - {0, n}


def span_attrs(n):
    given = ATTRS[n.attrs]
    attrs = {k: given[k] for k in ('class', 'id', 'style') if k in given}
    attrs.setdefault('class', n.name.lower())
    return attrs


#: attribute source -> the entries
ATTRS = {
    '': {},
    '[class=x1]': {'class': 'x1'},
    '[id=my-id class="a b"]': {'id': 'my-id', 'class': 'a b'},
    '[style="color: red; x<y&z"]': {'style': 'color: red; x<y&z'},
    "[class='q\"q']": {'class': 'q"q'},
    '[onclick="alert(1)" id=z]': {'onclick': 'alert(1)', 'id': 'z'},
    '[href="javascript:x" src=y pos]': {'href': 'javascript:x', 'src': 'y'},
    '[data=5 title=t]': {'data': '5', 'title': 't'},
    '[id="é&amp;<b>"]': {'id': 'é&amp;<b>'},
}


def html_blocks(blocks):
    out = []
    for b in blocks:
        if b[0] == 'p':
            out.append(el('p', {}, html_inline(b[1])))
        elif b[0] == 'v':
            out.append(el('code', {}, [b[2]]))
        elif b[0] == 'box':
            out.append(el('div', {'class': BOX[b[1]][0]}, html_blocks(b[2])))
        elif b[0] == 'h':
            out.append(el(HEAD[b[1]], {}, html_inline(b[2])))
    return out


def dom(e):
    """An lxml element as nested tuples, without whitespace."""
    children = [e.text or '']
    for x in e:
        if x.tag is lxml.etree.Comment or x.tag is lxml.etree.PI:
            children.append(('!comment', {}, []))
        elif x.tag is lxml.etree.Entity:
            children.append(('!entity', {'name': x.name}, []))
        else:
            children.append(dom(x))
        children.append(x.tail or '')
    return el(e.tag, dict(e.attrib), children)


_HTML = None


def parse_html(text):
    """Parse an html fragment with one root element."""
    global _HTML
    if _HTML is None:
        _HTML = lxml.etree.HTMLParser(encoding='utf-8')
    root = lxml.etree.fromstring(
        ('<html><head><meta charset="utf-8"></head><body>' + text +
         '</body></html>').encode('utf-8'), _HTML)
    body = root.find('body')
    if len(body) != 1:
        raise ValueError('not a single element: {!r}'.format(text))
    return body[0]


def parse_xml(text):
    return lxml.etree.fromstring(str(text).encode('utf-8'))


def itertext(e):
    return ''.join(e.itertext())


# -- tex

def tex_inline(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
            continue
        low = n.name.lower()
        inner = tex_inline(n.children)
        if low in gen.FMT:
            cmd = gen.FMT[low][2]
            if cmd in '^_':
                out.append('\\ensuremath{' + cmd + '{' + inner + '}}')
            else:
                out.append(cmd + '{' + inner + '}')
        elif low in ('symbol', 'smb'):
            out.append('\\ensuremath{\\' + n.children[0] + '}')
        elif low == 'supsub':
            a, b = n.children[0].split('&&')
            out.append('\\ensuremath{^{' + a.strip() + '}_{' + b.strip() +
                       '}}')
        elif low == 'code':
            out.append(tex_verb(n.children[0] if n.children else ''))
        else:
            out.append(inner)
    return ''.join(out)


def tex_verb(text):
    for d in '|!^':
        if d not in text:
            return '\\verb' + d + text + d
    return None


def tex_blocks(blocks):
    out = []
    for b in blocks:
        if b[0] == 'p':
            out.append('\n' + tex_inline(b[1]) + '\n')
        elif b[0] == 'v':
            if b[1] == 'verbatim':
                out.append('\\begin{verbatim}\n' + b[2] + '\n\\end{verbatim}')
            else:
                out.append(tex_verb(b[2]))
        elif b[0] == 'box':
            env = BOX[b[1]][1]
            out.append('\\begin{' + env + '}\n' + tex_blocks(b[2]) +
                       '\n\\end{' + env + '}')
        elif b[0] == 'h':
            out.append('\\' + b[1] + '{' + tex_inline(b[2]) + '}')
    return '\n'.join(out)


# -- text

def txt_inline(nodes, symbol=lambda s: s):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
        elif n.name.lower() in ('symbol', 'smb'):
            out.append(symbol(n.children[0]))
        elif n.name.lower() == 'supsub':
            out.append(n.children[0])
        else:
            out.append(txt_inline(n.children, symbol))
    return ''.join(out)


def txt_blocks(blocks, symbol=lambda s: s):
    out = []
    for b in blocks:
        if b[0] == 'p':
            out.append(txt_inline(b[1], symbol))
        elif b[0] == 'v':
            out.append(b[2])
        elif b[0] == 'box':
            out.append(txt_blocks(b[2], symbol))
        elif b[0] == 'h':
            out.append(txt_inline(b[2], symbol))
    return '\n\n'.join(out)


# -- generator

def no_blank(nodes):
    return [re.sub(r'\s*\n\s*\n\s*', '\n', n) if isinstance(n, str) else n
            for n in nodes]


LITERAL = list('abc xyz 012 <>&"\'#$%_^~\\!|-*@[]') + ['@b{x}', '{y}', '--',
                                                     '---', '\n', 'é', '中']


def literal(c, hi=10, newlines=True):
    t = c.text(LITERAL, 1, hi)
    t = re.sub(r'\n\s*\n', '\n', t)
    if not newlines:
        t = t.replace('\n', ' ')
    # a literal '@' followed by a word may name a macro
    t = re.sub(r'@(?=\w)(?!b\{x\})', '@ ', t)
    return t if t.strip() else 'q' + t


def inline(c, depth=2, hi=5, text=None, nonblank=True, code=True):
    text = text or (lambda: gen.plain(c))

    def one():
        k = c.weighted([(6, 'text'), (4 if depth > 0 else 0, 'fmt'),
                        (2 if depth > 0 else 0, 'free'), (0.7, 'symbol'),
                        (0.5, 'supsub'), (0.7 if code else 0, 'code')])
        if k == 'text':
            return text()
        if k == 'fmt':
            return Tag(c.choice(list(gen.FMT)),
                       c.weighted([(6, ''), (1, '[class=x1]'),
                                   (1, '[onclick="alert(1)" id=z]')]),
                       inline(c, depth - 1, hi, text, False, code))
        if k == 'free':
            return Tag(c.choice(gen.FREE), c.choice(list(ATTRS)),
                       inline(c, depth - 1, hi, text, False, code))
        if k == 'symbol':
            return Tag(c.choice(['symbol', 'smb']), '',
                       [c.choice(list(SYMBOLS))])
        if k == 'supsub':
            return Tag('supsub', '', [gen.word(c) + c.choice(['&&', ' && ']) +
                                      gen.word(c)])
        return Tag('code', '', [literal(c, newlines=False)])
    out = gen.merge(c.list(one, 0, hi))
    out = no_blank(out)
    if nonblank and not gen.source(out).strip():
        out = gen.merge(out + ['w'])
    return out


def blocks(c, hi=4, depth=1, text=None):
    def one():
        k = c.weighted([(6, 'p'), (1.5, 'v'), (1 if depth > 0 else 0, 'box'),
                        (1, 'h')])
        if k == 'p':
            # A paragraph starts with text so that code tags are inline
            return ('p', no_blank(gen.merge(['t'] + inline(c, text=text))))
        if k == 'v':
            return ('v', c.choice(['v', 'verb', 'verbatim']), literal(c))
        if k == 'box':
            return ('box', c.choice(list(BOX)),
                    blocks(c, 3, depth - 1, text) or [('p', ['x'])])
        return ('h', c.choice(list(HEAD)), gen.merge(
            inline(c, depth=1, hi=3, text=lambda: gen.word(c), code=False)))
    return c.list(one, 1, hi)
