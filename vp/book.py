"""Random projects of several documents with headings, figures and tables, and
a reference model of their labels."""
from . import gen
from .project import header

HEADINGS = {'title': 'title', 'h1': 'title', 'part': 'part',
            'chapter': 'chapter', 'h2': 'chapter', 'section': 'section',
            'h3': 'section', 'subsection': 'subsection', 'h4': 'subsection',
            'subsubsection': 'subsubsection', 'h5': 'subsubsection'}
HTML = {'title': 'h1', 'part': 'h1', 'chapter': 'h2', 'section': 'h3',
        'subsection': 'h4', 'subsubsection': 'h5'}
IDPRE = {'title': 'title', 'part': 'part', 'chapter': 'ch', 'section': 'sec',
         'subsection': 'subsec', 'subsubsection': 'subsubsec'}
FIGS = ['fig', 'figure', 'marginfig', 'ffig', 'fullfigure']
TABLES = ['table', 'tbl', 'margintable', 'fulltable', 'ftbl']
RESETS = {'part': {'chapter', 'section', 'subsection', 'subsubsection'},
          'chapter': {'section', 'subsection', 'subsubsection', 'figure',
                      'table'},
          'section': {'subsection', 'subsubsection'},
          'subsection': {'subsubsection'}}
NAMES = ['main.dm', 'a.dm', 'b.dm', 'd/c.dm', 'd/a.dm', 'zz.dm']
IDS = ['x', 'intro', 'fig:one', 'sec-2', 'long_id', 'K', 'ch:x', 'n9', 'a--b', "o'b"]


def slug(text):
    """An identifier, for text of ascii letters, digits, blanks, '/', '.'"""
    out = ''
    for ch in text.lower():
        out += ch if ch.isalnum() or ch == '_' else '-'
    while '--' in out:
        out = out.replace('--', '-')
    return out.strip('-')


class Element:
    """One labelled element: kind is 'title'...'subsubsection', 'figure' or
    'table'."""

    def __init__(self, kind, name, text, id=None, nolabel=False, wrap=None):
        self.kind = kind
        self.name = name
        self.text = text
        self.id = id
        self.nolabel = nolabel
        self.wrap = wrap
        self.label = None

    @property
    def heading(self):
        return self.kind in HTML

    def source(self):
        attrs = []
        if self.id:
            attrs.append('id=' + self.id)
        if self.nolabel:
            attrs.append('nolabel')
        a = '[' + ' '.join(attrs) + ']' if attrs else ''
        if self.heading:
            t = '@{}{}{{{}}}'.format(self.name, a, self.text)
        elif self.kind == 'figure':
            t = '@{}{}{{@img{{none.svg}} @caption{{{}}}}}'.format(
                self.name, a, self.text) if False else \
                '@{}{}{{@caption{{{}}}}}'.format(self.name, a, self.text)
        else:
            t = '@{}{}{{@csv{{\nu,v\n1,2\n}} @caption{{{}}}}}'.format(
                self.name, a, self.text)
        if self.wrap:
            t = '@{}{{\n{}\n}}'.format(self.wrap, t)
        return t


class Doc:
    def __init__(self, name):
        self.name = name
        self.items = []      # strings and Elements
        self.subs = []
        self.head = {}       # raw header lines
        self.doc_id = None
        self.title = None

    @property
    def id(self):
        return self.doc_id or self.name

    def elements(self):
        return [x for x in self.items if isinstance(x, Element)]

    def body(self):
        out = [x if isinstance(x, str) else x.source() for x in self.items]
        return '\n\n'.join(out) or 'nothing'

    def source(self):
        head = dict(self.head)
        if self.doc_id:
            head['doc_id'] = self.doc_id
        if self.title:
            head['title'] = self.title
        if self.subs:
            pre = len(self.name.rsplit('/', 1)[0]) + 1 \
                if '/' in self.name else 0
            head['include'] = '\n' + '\n'.join('  ' + d.name[pre:]
                                               for d in self.subs)
        return header(**head) + self.body()


class Label:
    def __init__(self, doc, id, kind, title, element=None):
        self.doc, self.id, self.kind, self.title = doc, id, kind, title
        self.element = element
        self.order = None
        self.numbers = {}

    @property
    def number(self):
        return self.order[-1] if self.order else None

    @property
    def tree_number(self):
        return '.'.join(str(self.numbers[k]) for k in
                        ('part', 'chapter', 'section', 'subsection',
                         'subsubsection') if self.numbers.get(k))


class Book:
    def __init__(self, c, hi=5):
        self.c = c
        self.counter = 0
        names = NAMES[:c.int(1, hi)]
        self.docs = [Doc(n) for n in names]
        self.attach()
        self.resets = {k: set(v) for k, v in RESETS.items()}

    def attach(self):
        """A random tree over all documents."""
        c = self.c
        for d in self.docs:
            d.subs = []
        for i, d in enumerate(self.docs[1:], 1):
            parents = [p for p in self.docs[:i]
                       if '/' not in p.name or
                       d.name.startswith(p.name.rsplit('/', 1)[0] + '/')]
            p = c.choice(parents)
            p.subs.insert(c.int(0, len(p.subs)), d)

    def order(self):
        out = []

        def visit(d, level):
            out.append((d, level))
            for x in d.subs:
                visit(x, level + 1)
        visit(self.docs[0], 1)
        return out

    def text(self):
        """A unique text."""
        self.counter += 1
        return gen.word(self.c, 1, 5).capitalize() + ' ' + 'n%d' % self.counter

    def element(self, doc, p_id=0.3):
        c = self.c
        kind = c.weighted([(4, 'section'), (3, 'chapter'), (1.5, 'part'),
                           (2, 'subsection'), (1.5, 'subsubsection'),
                           (1, 'title'), (2.5, 'figure'), (1.5, 'table')])
        if kind == 'figure':
            name = c.choice(FIGS)
        elif kind == 'table':
            name = c.choice(TABLES)
        else:
            name = c.choice([n for n, k in HEADINGS.items() if k == kind])
        id = None
        if c.bool(p_id):
            used = {e.id for e in doc.elements()}
            free = [i for i in IDS if i not in used]
            id = c.choice(free) if free else None
        text = self.text()
        if kind in ('figure', 'table') and c.bool(0.2):
            # the same caption as in other documents
            t = c.choice(['Same', 'Alike'])
            if t not in [e.text for e in doc.elements()]:
                text = t
        return Element(kind, name, text, id,
                       kind in HTML and c.bool(0.12),
                       None)

    def fill(self, doc, hi=6, p_id=0.3):
        c = self.c
        doc.items = []
        for _ in range(c.int(0, hi)):
            if c.bool(0.2):
                doc.items.append('some text')
            doc.items.append(self.element(doc, p_id))

    def labels(self):
        """All labels, in order, with their numbers."""
        out = []
        count = {}
        current = {}
        levels = ['part', 'chapter', 'section', 'subsection',
                  'subsubsection']
        for d, level in self.order():
            found = [Label(d, 'doc:' + slug(d.name),
                           ('document', 'document-level-%d' % level),
                           d.title)]
            for e in d.elements():
                if e.nolabel:
                    e.label = None
                    continue
                if e.heading:
                    lb = Label(d, e.id or IDPRE[e.kind] + ':' + slug(
                        d.id + '-' + e.text), ('heading', e.kind), e.text, e)
                else:
                    lb = Label(d, e.id, ('caption', e.kind), e.text, e)
                e.label = lb
                found.append(lb)
            for lb in found:
                order = []
                for k in lb.kind:
                    count[k] = count.get(k, 0) + 1
                    for r in self.resets.get(k, ()):
                        count[r] = 0
                    order.append(count[k])
                lb.order = tuple(order)
                k = lb.kind[-1]
                if k in levels:
                    current[k] = lb.number
                    i = levels.index(k)
                    for x in levels[max(i + 1, 0):]:
                        current[x] = None
                if lb.element is not None:
                    lb.numbers = dict(current)
                out.append(lb)
        return out
