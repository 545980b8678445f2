"""P24: figures, panels, tables of figures and captions hold what was
written, at the size asked for."""
import math
import re

from .. import refmodel as rm
from ..project import Project, header

RULE = ("Random documents with figures of all kinds and aliases that hold "
        "images, panels, text and captions in any order, with widths (whole "
        "and fractional percentages, fractions, lengths), classes, ids and "
        "offsets, and tables with captions; the html and xhtml trees and the "
        "sequence of commands in tex are compared to a reference. "
        "Non-trivial: a figure has at least two images or panels, or a "
        "caption that isn't last.")
ASSUMPTIONS = ['Widths above 100% and figures without contents are not '
               'generated.']

FIGS = {'fig': ('figure', 'figure'), 'figure': ('figure', 'figure'),
        'marginfig': ('marginfig', 'marginfigure'),
        'marginfigure': ('marginfig', 'marginfigure'),
        'ffig': ('fullfigure', 'figure*'),
        'fullfig': ('fullfigure', 'figure*'),
        'fullfigure': ('fullfigure', 'figure*')}
TABLES = {'table': ('table', 'table'), 'fulltable': ('fulltable', 'table*'),
          'margintable': ('margintbl', 'margintable'),
          'margintbl': ('margintbl', 'margintable')}
SIZES = [(25, 'w25', 0.24), (33, 'w33', 0.32), (50, 'w50', 0.49),
         (67, 'w66', 0.65), (75, 'w75', 0.74), (100, 'w100', 0.99)]
WORDS = ['alpha', 'beta', 'x1', 'y2', 'Left', 'right']


def width(c):
    """A width as (source, percentage or None)."""
    k = c.weighted([(5, 'int'), (2, 'edge'), (1, 'frac'), (1, 'dec'),
                    (1, 'len')])
    if k == 'int':
        n = c.int(1, 100)
        return ('{}%'.format(n), n)
    if k == 'edge':
        n = c.choice([25, 33, 50, 67, 75]) + c.int(-1, 1)
        return ('{}%'.format(n), n)
    if k == 'frac':
        n = c.int(1, 99)
        d = c.int(1, 9)
        return ('{}.{}%'.format(n, d), n + 1)
    if k == 'dec':
        n = c.choice([5, 25, 50, 75, 100])
        return (str(n / 100), n)
    return (c.choice(['2in', '3.5cm', '10em']), None)


def size(w):
    return next(s for s in SIZES if w <= s[0])


def image(c):
    cls = c.weighted([(3, None), (1, 'icon'), (1, 'a b')])
    return ('img', c.choice(['p.png', 'q.png', 'd/r.png', 'f.pdf']),
            width(c) if c.bool() else None, cls)


def caption_nodes(c, n):
    return ['C{} '.format(n) + c.choice(WORDS)] + (
        [('b', c.choice(WORDS))] if c.bool() else [])


def figure(c, n):
    name = c.choice(sorted(FIGS))
    items = []
    for _ in range(c.int(1, 3)):
        k = c.weighted([(3, 'img'), (2, 'panel'), (1, 'text')])
        if k == 'img':
            items.append(image(c))
        elif k == 'panel':
            items.append(('panel', width(c),
                          c.weighted([(3, None), (1, 'pc')]),
                          [image(c)] + ([c.choice(WORDS)] if c.bool()
                                        else [])))
        else:
            items.append(c.choice(WORDS))
    if all(isinstance(i, str) for i in items):
        items.append(image(c))
    cap = None
    if c.bool(0.7):
        cap = caption_nodes(c, n)
        items.insert(c.weighted([(3, len(items)), (1, 0),
                                 (1, c.int(0, len(items)))]),
                     ('caption', cap))
    if c.bool(0.3):
        name = name.capitalize()
    return ('fig', name, items,
            'id-{}'.format(n) if c.bool() else None,
            c.weighted([(2, None), (1, 'uc')]),
            c.weighted([(3, None), (1, '3cm')]) if name.lower().startswith(
                'margin') else None)


def table(c, n):
    name = c.choice(sorted(TABLES))
    return ('table', name, [[c.choice(WORDS) for _ in 'ab'] for _ in 'rs'],
            caption_nodes(c, n) if c.bool(0.7) else None,
            c.bool(), 'id-{}'.format(n) if c.bool() else None,
            c.weighted([(2, None), (1, 'uc')]))


# -- source

def nodes_source(nodes):
    return ' '.join(x if isinstance(x, str) else '@{}{{{}}}'.format(*x)
                    for x in nodes)


def attrs_source(*entries):
    out = [e for e in entries if e]
    return '[' + ' '.join(out) + ']' if out else ''


def item_source(i):
    if isinstance(i, str):
        return i
    if i[0] == 'img':
        return '@img{}{{{}}}'.format(attrs_source(
            i[2] and 'width=' + i[2][0],
            i[3] and 'class="' + i[3] + '"'), i[1])
    if i[0] == 'panel':
        return '@panel{}{{{}}}'.format(attrs_source(
            'width=' + i[1][0], i[2] and 'class=' + i[2]),
            ' '.join(item_source(x) for x in i[3]))
    return '@caption{' + nodes_source(i[1]) + '}'


def source(b, sep):
    if isinstance(b, str):
        return b
    if b[0] == 'fig':
        _, name, items, id, cls, off = b
        return '@{}{}{{{}}}'.format(
            name, attrs_source(id and 'id=' + id, cls and 'class=' + cls,
                               off and off + '.tex'),
            sep.join(item_source(i) for i in items))
    _, name, rows, cap, first, id, cls = b
    data = '@csv{\n' + '\n'.join(','.join(r) for r in rows) + '\n}'
    caps = '@caption{' + nodes_source(cap) + '}' if cap else ''
    return '@{}{}{{{}}}'.format(
        name, attrs_source(id and 'id=' + id, cls and 'class=' + cls),
        (caps + '\n' + data) if first else (data + '\n' + caps))


# -- reference

EPUB = '{http://www.idpf.org/2007/ops}type'


def nodes_el(nodes):
    return [x if isinstance(x, str) else rm.el('strong', {}, [x[1]])
            for x in nodes]


def caption_el(nodes, kind, n, id):
    return rm.el('caption' if kind == 'Table' else 'figcaption',
                 {'class': 'caption', 'id': id},
                 [rm.el('span', {'class': 'label'},
                        [rm.el('strong', {}, ['{} {}'.format(kind, n)]),
                         '. '])] + nodes_el(nodes))


def img_el(i, target, where='media/'):
    f = i[1] if not i[1].endswith('.pdf') else i[1][:-4] + '.svg'
    cls = [i[3]] if i[3] else []
    if i[2] and i[2][1] is not None:
        cls.append(size(i[2][1])[1])
    attrs = {'src': 'media/' + f}
    if cls:
        attrs['class'] = ' '.join(cls)
    return rm.el('img', attrs)


def reference(blocks, target):
    nfig = ntab = 0
    out = []
    for b in blocks:
        if isinstance(b, str):
            out.append(rm.el('p', {}, [b]))
        elif b[0] == 'fig':
            _, name, items, id, cls, off = b
            kids = []
            attrs = {'class': ((cls + ' ') if cls else '') +
                     FIGS[name.lower()][0]}
            cap = any(not isinstance(i, str) and i[0] == 'caption'
                      for i in items)
            if id and not cap:
                attrs['id'] = id
            for i in items:
                if isinstance(i, str):
                    kids.append(i)
                elif i[0] == 'img':
                    kids.append(img_el(i, target))
                elif i[0] == 'panel':
                    pc = [i[2]] if i[2] else []
                    pc.append('panel')
                    if i[1][1] is not None:
                        pc.append(size(i[1][1])[1])
                    kids.append(rm.el(
                        'span', {'class': ' '.join(pc)},
                        [x if isinstance(x, str) else img_el(x, target)
                         for x in i[3]]))
                else:
                    nfig += 1
                    kids.append(caption_el(i[1], 'Fig.', nfig, id or '*'))
            out.append(rm.el('figure', attrs, kids))
        else:
            _, name, rows, cap, first, id, cls = b
            attrs = {'class': ((cls + ' ') if cls else '') +
                     TABLES[name][0]}
            if id and not cap:
                attrs['id'] = id
            data = [rm.el('thead', {}, [rm.el('tr', {}, [
                        rm.el('th', {}, [x]) for x in rows[0]])]),
                    rm.el('tbody', {}, [rm.el('tr', {}, [
                        rm.el('td', {}, [x]) for x in r])
                        for r in rows[1:]])]
            kids = data
            if cap:
                ntab += 1
                e = [caption_el(cap, 'Table', ntab, id or '*')]
                kids = e + data if first else data + e
            out.append(rm.el('table', attrs, kids))
    return rm.el('div', {'class': 'body'}, out)


def simplify(e):
    """Automatic ids and the attributes of epub as '*' or nothing."""
    if isinstance(e, str):
        return e
    name, attrs, kids = e
    name = re.sub(r'^\{.*\}', '', name)
    attrs = {k: ('*' if k == 'id' and v.startswith('caption-') else v)
             for k, v in attrs.items() if k != EPUB}
    if 'class' in attrs:
        attrs['class'] = ' '.join(sorted(attrs['class'].split()))
    return (name, attrs, [simplify(k) for k in kids])


def tex_tokens(blocks):
    """The commands and words in tex."""
    out = []
    nfig = ntab = 0

    def img(i):
        o = ''
        if i[2]:
            o = ('width={}'.format(i[2][0]) if i[2][1] is None else
                 'width={}\\textwidth'.format(size(i[2][1])[2]))
        return ('img', o, i[1])

    def cap(nodes, kind, n, id):
        return [('caption',)] + [('word', w) for w in
                                 '{} {} .'.format(kind, n).split()] + \
            [('word', w) for x in nodes
             for w in (x if isinstance(x, str) else x[1]).split()] + \
            ([('label', id)] if id else [('label', '*')])
    for b in blocks:
        if isinstance(b, str):
            out += [('word', w) for w in b.split()]
        elif b[0] == 'fig':
            env = FIGS[b[1].lower()][1]
            out.append(('begin', env, b[5] or ''))
            for i in b[2]:
                if isinstance(i, str):
                    out.append(('word', i))
                elif i[0] == 'img':
                    out.append(img(i))
                elif i[0] == 'panel':
                    w = (i[1][0] if i[1][1] is None else
                         '{}\\textwidth'.format(size(i[1][1])[2]))
                    out.append(('begin', 'panel', w))
                    out += [('word', x) if isinstance(x, str) else img(x)
                            for x in i[3]]
                    out.append(('end', 'panel'))
                else:
                    nfig += 1
                    out += cap(i[1], 'Fig.', nfig, b[3])
            out.append(('end', env))
        else:
            _, name, rows, c, first, id, cls = b
            env = TABLES[name][1]
            data = [('begin', 'tabular', 'll')] + [
                ('word', x) for r in rows for x in r] + [('end', 'tabular')]
            cc = []
            if c:
                ntab += 1
                cc = cap(c, 'Table', ntab, id)
            out += [('begin', env, '')] + (cc + data if first else data + cc)
            out.append(('end', env))
    return out


RE_TEX = re.compile(
    r'\\begin\{(?P<begin>[^}]*)\}(?P<args>(?:[\[{][^\]}]*[\]}])*)|'
    r'\\end\{(?P<end>[^}]*)\}|'
    r'\\includegraphics(?:\[(?P<opts>[^\]]*)\])?'
    r'\{\{(?P<base>[^}]*)\}(?P<ext>\.\w+)\}|'
    r'\\label\{(?P<label>[^}]*)\}|'
    r'\\caption(?P<caption>)|\\(?:textbf|toprule|midrule|bottomrule|hline)|'
    r'\\\\|(?P<word>[\w.-]+)|[&{}%]|\s+|(?P<other>.)')


def parse_tex(text, media):
    out = []
    for m in RE_TEX.finditer(text):
        d = m.groupdict()
        if d['begin'] is not None:
            args = ''.join(re.findall(r'[\[{]([^\]}]*)[\]}]', d['args']))
            out.append(('begin', d['begin'], args))
        elif d['end'] is not None:
            out.append(('end', d['end']))
        elif d['base'] is not None:
            f = d['base'] + d['ext']
            if f.startswith(media):
                f = f[len(media):]
            out.append(('img', d['opts'] or '', f))
        elif d['label'] is not None:
            out.append(('label', '*' if d['label'].startswith('caption-')
                        else d['label']))
        elif d['caption'] is not None:
            out.append(('caption',))
        elif d['word'] is not None:
            out.append(('word', d['word']))
        elif d['other'] is not None:
            out.append(('other', d['other']))
    return out


def words(tokens):
    """Join the words next to each other and drop spaces."""
    out = []
    for t in tokens:
        if t[0] == 'word' and out and out[-1][0] == 'word':
            out[-1] = ('word', out[-1][1] + t[1])
        else:
            out.append(t)
    return out


def prop(c):
    blocks = []
    for n in range(c.int(1, 4)):
        k = c.weighted([(4, 'fig'), (1, 'table'), (1, 'text')])
        blocks.append(figure(c, n) if k == 'fig' else table(c, n)
                      if k == 'table' else 'P{} text'.format(n))
    sep = c.choice(['\n', ' ', '\n  '])
    text = '\n\n'.join(source(b, sep) for b in blocks) + '\n'
    c.note(text)
    p = Project(c.scratch / 'p')
    p.write('main.dm', header(targets='html, xhtml, tex') + text)
    for f in ('p.png', 'q.png', 'd/r.png'):
        p.write(f, b'\x89PNG' + f.encode())
    p.write('f.pdf', b'%PDF-1.4')
    p.open()
    b = p.doc.context['body']
    want = simplify(reference(blocks, 'html'))
    c.eq(simplify(rm.dom(rm.parse_html(str(b.html)))), want,
         'html of\n' + text, key='html')
    c.eq(simplify(rm.dom(rm.parse_xml(b.xhtml))), want,
         'xhtml of\n' + text, key='xhtml')
    got = parse_tex(str(b.tex), str(p.target_root) + '/tex/media/')
    c.eq(words(got), words(tex_tokens(blocks)), 'tex of\n' + text +
         str(b.tex), key='tex')
    figs = [x for x in blocks if x[0] == 'fig']
    if any(sum(1 for i in x[2] if i[0] in ('img', 'panel')) > 1 or
           any(i[0] == 'caption' for i in x[2][:-1]) for x in figs):
        c.nontrivial(text)


PARTS = [('figures', prop, 800, 10000)]
