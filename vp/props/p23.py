"""P23: navigation links lead to the neighbouring documents."""
import posixpath
import re

from .. import book
from .. import refmodel as rm
from ..project import Project
from .p09 import no_entities, text_of
from .p14 import DEFAULT, expand, fmt_for, parents, squeeze, write
from .p15 import REFDEFAULT, refs_xml, setup, targets_of, url

RULE = ("Random trees of documents with headings (some without), some "
        "documents with other targets, next, prev, srclink, txtlink, "
        "texlink, pdflink and epublink tags anywhere, before and after edits "
        "of the documents, their order and their targets. The next and prev "
        "tags have to show and link to the first heading of the next and "
        "previous document that has the target (or nothing), and the other "
        "links have to be the relative path of the other file of the "
        "document (or nothing). Non-trivial: a link to a document in another "
        "folder or that skips a document without the target.")
ASSUMPTIONS = ['Documents of an epub have the same targets.']
FMTS = dict(DEFAULT, **REFDEFAULT)
OTHER = ['srclink', 'txtlink', 'texlink', 'pdflink', 'epublink']


class Nav:
    def __init__(self, name):
        self.name = name

    def source(self):
        return '@' + self.name + '{}' if self.name in ('prev', 'next') else \
            'Q{0} @{0}{{}} Z'.format(self.name)


def neighbour(b, labels, d, name, target):
    """The label that @next{} or @prev{} shows."""
    docs = [x for x, _ in b.order() if target in targets_of(x)]
    if d not in docs:
        return None
    i = docs.index(d) + (1 if name == 'next' else -1)
    if not 0 <= i < len(docs):
        return None
    heads = [lb for lb in labels if lb.doc is docs[i] and
             lb.kind[0] == 'heading']
    return heads[0] if heads else None


def other(b, d, name, target):
    """The path that a link to another file shows."""
    if target not in targets_of(d):
        return ''
    here = posixpath.dirname(posixpath.join(target, d.name)) or '.'
    if name == 'srclink':
        there = 'src/' + d.name
    else:
        t = name[:-4]
        x = b.docs[0] if t == 'epub' else d
        if t not in targets_of(x):
            return ''
        there = t + '/' + x.name[:-3] + '.' + t
        if x is d and t == target:
            return ''
    return posixpath.relpath(there, here)


def check(c, p, b, when):
    labels = b.labels()
    titles = parents(labels)
    docs = {str(d.src_filepath.subpath): d for d in p.docs()}
    nt = False
    order = [x for x, _ in b.order()]
    for m in order:
        body = docs[m.name].context['body']
        navs = [x.name for x in m.items if isinstance(x, Nav)]
        where = '{} {}'.format(m.name, when)
        for target in ('html', 'xhtml', 'tex'):
            text = str(getattr(body, target))
            if target == 'html':
                text = no_entities(text)
            want = []
            for n in navs:
                if n not in ('prev', 'next'):
                    continue
                lb = neighbour(b, labels, m, n, target)
                if lb is None:
                    continue
                t = expand(fmt_for(FMTS, ('ref',) + lb.kind,
                                   'tex' if target == 'tex' else 'html'),
                           lb, titles)
                u = url(b, m, lb, 'pdf' if target == 'tex' else target,
                        dict(relative=True))
                want.append((u, squeeze(t)))
                nt |= posixpath.dirname(m.name) != \
                    posixpath.dirname(lb.doc.name)
                nt |= abs(order.index(lb.doc) - order.index(m)) > 1
            if target == 'tex':
                text2 = re.sub(r'\\textbf\{([^{}]*)\}', r'\1', text)
                got = [(u, squeeze(t)) for u, t in re.findall(
                    r'\\href\{([^{}]*)\}\{([^{}]*)\}', text2)]
                for u, t in want:
                    if u is None:
                        c.check(t in squeeze(text2), lambda: 'the tex of {} '
                                'lacks {!r}: {!r}'.format(where, t, text))
                want = [w for w in want if w[0] is not None]
                plain = text
            else:
                got = refs_xml(text)
                plain = text_of(rm.dom(rm.parse_xml(text)))
            c.eq(got, want, 'next and prev in the {} of {}'.format(
                target, where))
            got = re.findall(r'Q(\w+?link)\s*(.*?)\s*Z', plain, re.S)
            want = [(n, other(b, m, n, target)) for n in navs
                    if n in OTHER]
            c.eq(got, want, 'links in the {} of {}'.format(target, where))
    return nt


TARGETS = ['html', 'tex, pdf', 'txt', 'html, xhtml', 'xhtml, tex',
           'html, txt, pdf, tex']


def prop(c):
    b = setup(c, 6)
    for d in b.docs:
        if c.bool(0.2):
            d.items = [x for x in d.items if not getattr(x, 'heading', False)]
        for n in c.subset(['prev', 'next'] + OTHER, 0.5):
            d.items.insert(c.int(0, len(d.items)), Nav(n))
    own = {}
    root = c.choice(['html, xhtml, tex, pdf, txt', 'html, xhtml, tex, txt',
                     'html, xhtml, epub', 'html', 'tex, html, pdf'])

    def save():
        write(p, b, {}, {})
        for d in b.docs:
            d.head.pop('targets', None)
            if d is b.docs[0]:
                d.head['targets'] = root
            elif d.name in own:
                d.head['targets'] = own[d.name]
        for d in b.docs:
            s = d.source()
            if (p.src / d.name).read_text(encoding='utf-8') != s:
                p.write(d.name, s)
        for d, _ in b.order():
            if d is b.docs[0]:
                d.inherited = root
            for x in d.subs:
                x.inherited = own.get(x.name) or d.inherited
    for d in b.docs[1:]:
        if c.bool(0.25) and 'epub' not in root:
            own[d.name] = c.choice(TARGETS)
    p = Project(c.scratch / 'p')
    save()
    for d in b.docs:
        c.note('{}: {!r}'.format(d.name, d.source()))
    p.open()
    nt = check(c, p, b, 'at first')
    for step in range(c.int(0, 3)):
        k = c.choice(['insert', 'swap', 'tree', 'remove', 'targets',
                      'nothing', 'root'])
        d = c.choice(b.docs)
        if k == 'insert':
            d.items.insert(0, b.element(d))
        elif k == 'swap':
            d.items = c.shuffle(d.items)
        elif k == 'remove':
            es = d.elements()
            if es:
                d.items.remove(c.choice(es))
        elif k == 'targets' and d is not b.docs[0] and \
                'epub' not in root:
            own[d.name] = c.choice(TARGETS)
        elif k == 'tree':
            b.attach()
        elif k == 'root':
            root = c.choice(['html, xhtml, tex, pdf, txt', 'html',
                             'html, xhtml, tex, txt'])
        save()
        c.note('{}. {} {}: {}'.format(
            step, k, d.name, [(x.name, x.source()) for x in b.docs]))
        p.doc.load()
        nt |= check(c, p, b, 'after step %d' % step)
    if nt:
        c.nontrivial([d.source() for d in b.docs])


PARTS = [('navigation', prop, 500, 8000)]
