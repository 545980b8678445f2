"""P09: tables show exactly the rows and columns of their data."""
import csv
import io

from .. import gen
from .. import refmodel as rm
from ..gen import Tag
from ..project import Project, header
from . import common

RULE = ("Random rectangular data (with and without a header row, duplicate "
        "header names, empty cells, tags and markup characters in cells, "
        "quoted cells with delimiters and newlines) written inline (with any "
        "indentation and blank lines) or in a file, as comma or tab "
        "separated values, in all kinds of tables with and without captions; "
        "the rows and columns of html, xhtml and tex are compared to the "
        "data. Non-trivial: at least two rows and two columns.")

TABLES = {'table': ('table', 'table'), 'tbl': ('table', 'table'),
          'margintable': ('margintbl', 'margintable'),
          'margintbl': ('margintbl', 'margintable'),
          'fulltable': ('fulltable', 'table*'), 'ftbl': ('fulltable',
                                                         'table*')}
TEXT = list('abc xyz 0123') + ['.', '&', '<', '>', '%', '#', 'é', '中', '=',
                               '+', '/']


def cell(c, empty=True):
    k = c.weighted([(6, 'text'), (2, 'tag'), (1 if empty else 0, 'empty'),
                    (1, 'symbol'), (1, 'special')])
    if k == 'empty':
        return []
    t = c.text(TEXT, 1, 8).strip() or 'w'
    if k == 'tag':
        return gen.merge([t, Tag(c.choice(['b', 'i', 'foo', 'sub']), '', [
            gen.word(c)])][c.int(0, 1):])
    if k == 'symbol':
        return [t + ' ', Tag('symbol', '', [c.choice(list(rm.SYMBOLS))])]
    if k == 'special':
        return [t + c.choice([', ', ',x', '\nx', '\t', ' , \n'])]
    return [t]


def write(rows, delimiter):
    f = io.StringIO()
    csv.writer(f, delimiter=delimiter, lineterminator='\n').writerows(rows)
    return f.getvalue()


def prop(c):
    p = Project(c.scratch)
    body, tables = ['first\n\n'], []
    nt = False
    number = 0
    for k in range(c.int(1, 3)):
        ncol, nrow = c.int(1, 4), c.int(1, 4)
        head = c.bool(0.6)
        if head:
            nrow = max(nrow, 2) if c.bool(0.9) else nrow
        nt |= ncol >= 2 and nrow >= 3
        rows = [[cell(c, ncol > 1) for _ in range(ncol)]
                for _ in range(nrow)]
        if head and ncol > 1 and c.bool(0.3):
            rows[0][1] = rows[0][0]
        tsv = c.bool(0.25)
        text = write([[gen.source(x) for x in row] for row in rows],
                     '\t' if tsv else ',')
        where = c.choice(['inline', 'indented', 'file', 'tight'])
        if where == 'indented' and not any(
                '\n' in gen.source(x) for row in rows for x in row):
            pad = ' ' * c.int(1, 6)
            text = '\n' + ''.join(pad + ln + '\n' for ln in
                                  text.splitlines()) + c.choice(
                                      ['', pad, '\n', '\n  \n'])
        elif where == 'file':
            name = 'data/t{}.{}'.format(k, 'tsv' if tsv else 'csv')
            p.write(name, text)
            text = c.choice(['', '\n  ']) + name + c.choice(['', '\n'])
        elif where == 'inline':
            text = '\n' + text
        if where != 'file' and text.count('{') != text.count('}'):
            from ..engine import Reject
            raise Reject()
        data = '@' + ('tsv' if tsv else 'csv') + (
            '' if head else '[noheader]') + '{' + text + '}'
        caption = c.choice([None, 'before', 'after'])
        cap = None
        if caption:
            number += 1
            cap = 'c{}'.format(k) + gen.word(c)
            data = ('@caption{' + cap + '}' + data if caption == 'before'
                    else data + '\n  @caption{' + cap + '}\n')
        name = c.choice(list(TABLES))
        cls = c.weighted([(3, ''), (1, '[class=x1]'), (1, '[id=tab{}]'.format(
            k))])
        body.append('@' + name + cls + '{' + c.choice(['', '\n  ']) + data +
                    '}\n\n')
        tables.append((name, cls, head, rows, caption, cap, number))
    src = ''.join(body) + 'last'
    c.note(repr(src))
    if nt:
        c.nontrivial(src)
    p.write('main.dm', header(targets='txt') + src)
    p.open()
    out = p.doc.context['body']
    for fmt, tree in (('html', rm.parse_xml(no_entities(str(out.html)))),
                      ('xhtml', rm.parse_xml(str(out.xhtml)))):
        got = list(tree.iter('table'))
        c.eq(len(got), len(tables), 'tables in the {} of {!r}'.format(
            fmt, src))
        for e, t in zip(got, tables):
            check_table(c, fmt, rm.dom(e), t, src)
    tex = common.squeeze(str(out.tex))
    pos = 0
    for name, cls, head, rows, caption, cap, num in tables:
        want = '\\begin{tabular}{' + 'l' * len(rows[0]) + '}\\toprule'
        body_rows = rows
        if head:
            want += tex_row(rows[0]) + '\\midrule'
            body_rows = rows[1:]
        want += ''.join(map(tex_row, body_rows)) + '\\bottomrule' \
            '\\end{tabular}'
        want = common.squeeze(want)
        i = tex.find(want, pos)
        c.check(i >= 0, lambda: 'tex of {!r} lacks {!r}: {!r}'.format(
            src, want, tex))
        env = TABLES[name][1]
        c.check(tex.rfind('\\begin{' + env + '}', pos, i) >= 0,
                lambda: 'no environment {} before {!r} in the tex of {!r}'
                .format(env, want, src))
        pos = i + len(want)
        j = tex.find('\\end{' + env + '}', pos)
        c.check(j >= 0, lambda: 'unfinished table in the tex of ' + src)


def tex_row(row):
    return '&'.join(rm.tex_inline(x).replace('&', '\\&') for x in row) + \
        '\\\\'


def no_entities(html):
    import re
    keep = {'amp', 'lt', 'gt', 'quot'}

    def repl(m):
        n = m.group(1)
        if n in keep or n not in html_entities:
            return m.group(0)
        return html_entities[n]
    return re.sub(r'&(\w+);', repl, html)


def _entities():
    import html.entities
    return {n: chr(v) for n, v in html.entities.name2codepoint.items()}


html_entities = _entities()


def check_table(c, fmt, dom, t, src):
    name, cls, head, rows, caption, cap, num = t
    tag, attrs, children = dom
    c.check(TABLES[name][0] in attrs.get('class', '').split(),
            lambda: 'class of {!r} in the {} of {!r}'.format(attrs, fmt, src))
    if cls == '[class=x1]':
        c.check('x1' in attrs.get('class', '').split(),
                lambda: 'class of {!r} in the {} of {!r}'.format(
                    attrs, fmt, src))
    parts = {x[0]: x for x in children if not isinstance(x, str)}
    order = [x if isinstance(x, str) else x[0] for x in children]
    want = []
    if head:
        want.append('thead')
    want.append('tbody')
    if caption == 'before':
        want.insert(0, 'caption')
    elif caption == 'after':
        want.append('caption')
    c.eq(order, want, 'parts of table {!r} in the {} of {!r}'.format(
        name, fmt, src))
    body_rows = rows
    if head:
        c.eq(parts['thead'][2], [rm.el('tr', {}, [
            rm.el('th', {}, rm.html_inline(x)) for x in rows[0]])],
            'header in the {} of {!r}'.format(fmt, src))
        body_rows = rows[1:]
    c.eq(parts['tbody'][2], [rm.el('tr', {}, [
        rm.el('td', {}, rm.html_inline(x)) for x in row])
        for row in body_rows], 'rows in the {} of {!r}'.format(fmt, src))
    if caption:
        text = text_of(parts['caption'])
        c.eq(text, 'Table{}.{}'.format(num, cap),
             'caption in the {} of {!r}'.format(fmt, src))


def text_of(d):
    return d if isinstance(d, str) else ''.join(text_of(x) for x in d[2])


PARTS = [('tables', prop, 2000, 25000)]
