"""P36: title and authors of the header are shown, in order, in all formats."""
import html
import re

import lxml.html

from .. import refmodel as rm
from ..project import Project, header

RULE = ("Random projects of one to three documents; each may have a title "
        "and authors in its header (entries author or authors; separated by "
        "semicolons, lines or commas; names with spaces, points, '&', '<' "
        "and letters of any language), else those of its parent hold. The "
        "bodies have author tags (with and without names of their own) in "
        "texts, lists, boxes and bold text, and title pages. In html, xhtml, "
        "tex and txt, each author tag has to show exactly the names, in "
        "order, joined by commas and a last 'and'; the title page has to "
        "show title and authors in html and xhtml; and the head of the "
        "files of the templates has to have both. Non-trivial: two or more "
        "names in some tag, and a document that inherits or replaces them.")
ASSUMPTIONS = ["Names and titles have no tags, quotes or dashes in a row, "
               "and each document has at most one title page."]
TEMPLATES = ['default', 'books/tufte', 'articles/basic', 'reports/basic']
FIRST = ['Ada', 'B.', 'Chloé', 'Ď', 'Jo Ann', 'X Æ', 'Li', 'A&B', 'a <b>']
LAST = ['Kay', 'Smith', 'van Ü', 'Lorieau', 'de la Cruz', '2nd', 'O']
TITLES = ['My Title', 'A & B', 'Ü < 3', 'one', '2 and 3', 'Of mice and men']


def names(c):
    n = c.weighted([(2, 1), (3, 2), (3, 3), (1, 4), (1, 6)])
    return [c.choice(FIRST) + ' ' + c.choice(LAST) + (
        ', Jr' if c.bool(0.1) else '') for _ in range(n)]


def joined(ns):
    return ns[0] if len(ns) == 1 else ', '.join(ns[:-1]) + ' and ' + ns[-1]


def separated(c, ns, lines):
    """The text of a list of names."""
    style = c.choice([';', '; ', ',', ', '] + ['\n'] * lines)
    if any(',' in n for n in ns) and (style.strip() == ',' or len(ns) == 1):
        # (a comma within a name isn't a separator)
        if len(ns) == 1:
            ns[0] = ns[0].replace(',', '')
        else:
            style = '; '
    return style.join(ns)


def doc(c, root):
    """(title or None, names or None, items)."""
    title = c.choice(TITLES) if root or c.bool(0.4) else None
    ns = names(c) if c.bool(0.9 if root else 0.4) else None
    items, page = [], False
    for _ in range(c.int(1, 4)):
        k = c.weighted([(4, 'auto'), (3, 'own'), (2, 'page'), (1, 'text')])
        if k == 'page':
            if page:
                continue
            page = True
            items.append(('page', c.choice(['@titlepage', '@titlepage{}']),
                          None))
        elif k == 'text':
            items.append(('text', 'Some words.', None))
        else:
            own = names(c) if k == 'own' else None
            t = '@' + c.choice(['author', 'authors'])
            t += ('{' + separated(c, own, 1) + '}' if own else
                  c.choice(['{}', '{}', '{ }']))
            if not (own and '\n' in t):
                t = c.choice(['%s', '%s', 'by %s.', '@b{by %s}',
                              '@list{\n- x %s\n- y\n}', '@center{%s}',
                              '@examplebox{in %s}', 'a @i{@u{%s}} b'
                              ]).replace('%s', t)
            items.append(('author', t, own))
    return title, ns, items


def text(t):
    return re.sub(r'\s+', ' ', t).strip()


def prop(c):
    docs = ['main.dm'] + ['a.dm', 'd/b.dm'][:c.int(0, 2)]
    p = Project(c.scratch / 'p')
    template = c.choice(TEMPLATES) if c.bool(0.6) else None
    targets = ['html', 'tex']
    if template in (None, 'default', 'books/tufte'):
        targets += ['xhtml']
    if template in (None, 'default'):
        targets += ['txt']
    # (documents in a chain or below the root)
    chain = c.bool()
    data = {}
    for i, n in enumerate(docs):
        data[n] = doc(c, i == 0)
    parent = {n: docs[i - 1 if chain else 0] for i, n in enumerate(docs)
              if i}
    for n in docs:
        title, ns, items = data[n]
        head = {}
        if n == 'main.dm':
            head['targets'] = ', '.join(targets)
            if template:
                head['template'] = template
        if title:
            head['title'] = title
        if ns:
            t = separated(c, ns, 1)
            head['author'] = ('\n  ' + t.replace('\n', '\n  ')
                              if '\n' in t else t)
        subs = [x for x in docs if parent.get(x) == n]
        if subs:
            head['include'] = '\n' + '\n'.join(
                '  ' + ('b.dm' if n.startswith('d/') else x) for x in subs)
        body = '\n\n'.join(t for _, t, _ in items)
        p.write(n, header(**head) + body + '\n')
        c.note(n, repr(header(**head) + body))
    env = p.open()
    c.eq(env.build(), 'done', 'status')
    multi = inherits = False
    for n, d in zip(docs, env.root_document.documents_list(
            only_subdocuments=False, recursive=True)):
        up = n
        while data[up][0] is None and up in parent:
            up = parent[up]
        title = data[up][0]
        up = n
        while data[up][1] is None and up in parent:
            up = parent[up]
        ns = data[up][1]
        inherits |= up != n or bool(data[n][1]) and n in parent
        here = joined(ns) if ns else ''
        want, plain = [], []
        for k, t, own in data[n][2]:
            if k == 'author':
                want.append(joined(own) if own else here)
                plain.append(want[-1])
                multi |= len(own or ns or []) > 1
            elif k == 'page':
                want.append(here)
        body = d.context['body']
        for fmt, tree in (('html', rm.parse_html(str(body.html))),
                          ('xhtml', rm.parse_xml(str(body.xhtml)))):
            got = [text(''.join(e.itertext())) for e in tree.iter()
                   if e.get('class') == 'authors']
            c.eq(got, want, 'authors in the {} of {}'.format(fmt, n),
                 key='authors')
            pages = [e for e in tree.iter() if e.get('class') == 'title-page']
            c.eq([text(''.join(x.itertext())) for e in pages for x in e
                  if str(x.tag).endswith('h1')],
                 [title for k, _, _ in data[n][2] if k == 'page'],
                 'titles in the {} of {}'.format(fmt, n), key='title')
        for fmt in ('tex', 'default'):
            out = text(str(getattr(body, fmt)))
            at = 0
            for w in plain:
                i = out.find(w, at)
                c.check(i >= 0, lambda: 'the authors {!r} are not in the {} '
                        'of {} (in order):\n{}'.format(w, fmt, n, out),
                        key='authors')
                at = i + len(w)
        c.eq(str(body.tex).count('\\maketitle'),
             sum(k == 'page' for k, _, _ in data[n][2]),
             'title pages in the tex of ' + n, key='title')
        # the heads of the files
        for t in targets:
            if t == 'txt':
                continue
            f = p.target_root / t / (n[:-3] + '.' + t)
            s = f.read_text(encoding='utf-8')
            if t == 'tex':
                m = re.search(r'\\title\{(.*?)\}\s*(\\|$)', s, re.S)
                c.check(m and m.group(1).split('}')[0].strip().endswith(title),
                        lambda: 'the title {!r} is not in the head of '
                        '{}'.format(title, f), key='head')
                if ns:
                    m = re.search(r'\\author\{(.*?)\}', s, re.S)
                    c.check(m, 'no author in the head of {}'.format(f))
                    c.eq(sorted(re.findall(r'[\w.&<>]+', m.group(1))),
                         sorted(re.findall(r'[\w.&<>]+', ' '.join(ns))),
                         'authors in the head of {}'.format(n), key='head')
                continue
            if t == 'xhtml':
                m = re.search('<title>(.*?)</title>', s, re.S)
                c.eq(html.unescape(m.group(1)), title, 'title in the head of '
                     'the xhtml of ' + n, key='head')
                continue
            tree = lxml.html.document_fromstring(s)
            c.eq([text(e.text or '') for e in tree.iter('title')][:1],
                 [title], 'title in the head of the html of ' + n,
                 key='head')
            meta = [e.get('content') for e in tree.iter('meta')
                    if e.get('name') == 'author']
            if ns:
                c.eq(sorted(re.findall(r'[\w.&<>]+', ' '.join(meta))),
                     sorted(re.findall(r'[\w.&<>]+', ' '.join(ns))),
                     'author in the head of the html of ' + n, key='head')
    if multi and inherits:
        c.nontrivial([data[n] for n in docs])


PARTS = [('preamble', prop, 240, 4000)]
