"""P15: references lead to the label they name."""
import posixpath
import re

from .. import book
from .. import refmodel as rm
from ..engine import Reject
from ..project import Project
from .p09 import no_entities, text_of
from .p14 import (DEFAULT, expand, fmt_for, new_fmts, norm, parents, squeeze,
                  write)

from disseminate.label_manager.exceptions import DuplicateLabel, LabelNotFound

RULE = ("Random trees of documents with labelled headings, figures, tables "
        "and documents, in which ids may be used in several documents, and "
        "references (with and without the id of the document) from anywhere "
        "to any of them, relative and absolute links, documents without some "
        "targets, ids of documents set in headers, and edits. The text and "
        "the link of every reference have to be the ones of the label of "
        "the reference model and the anchor has to be in the document that "
        "the link leads to. Unknown labels and labels used twice in a "
        "document have to be reported. Non-trivial: references between "
        "documents in different folders or to ids used more than once.")
ASSUMPTIONS = ["References name their label by an explicit id."]

REFDEFAULT = {'ref_document': '@label.title',
              'ref_caption_figure': '@b{Fig. @label.number}',
              'ref_caption_table': '@b{Table @label.number}',
              'ref_heading': '@label.title',
              'ref_heading_part': 'Part @label.part_number. @label.title',
              'ref_heading_chapter':
                  'Chapter @label.chapter_number. @label.title'}


class Ref:
    """A reference: written as an item of a document."""

    def __init__(self, id, doc=None, wrap=''):
        self.id = id
        self.doc = doc
        self.wrap = wrap

    def source(self):
        r = '@ref{' + (self.doc.id + '::' if self.doc else '') + self.id + '}'
        return {'': r, 'p': 'see ' + r + '.', 'b': '@b{' + r + '}',
                'list': '@list{\n- ' + r + '\n- w\n}',
                'sp': '@ref{ ' + r[5:-1] + ' }'}[self.wrap]


def add_refs(c, b):
    labels = b.labels()
    named = [lb for lb in labels
             if lb.element is None or lb.element.id or lb.element.heading]
    for d in b.docs:
        for _ in range(c.int(0, 3)):
            lb = c.choice(named)
            full = c.bool(0.4)
            r = Ref(lb.id, lb.doc if full else None,
                    c.choice(['', 'p', 'b', 'list', 'sp']))
            d.items.insert(c.int(0, len(d.items)), r)


def resolve(labels, d, ref):
    """The label for a reference in document d"""
    found = [lb for lb in labels if lb.id == ref.id]
    if ref.doc is not None:
        found = [lb for lb in found if lb.doc is ref.doc]
    own = [lb for lb in found if lb.doc is d]
    return (own + found + [None])[0]


def targets_of(d):
    t = d.head.get('targets') or d.inherited
    return [x.strip() for x in t.split(',')]


def url(b, d, lb, target, opts):
    if lb.doc is d:
        return '' if lb.element is None else '#' + lb.id
    if target not in targets_of(lb.doc):
        return None
    sub = lb.doc.name[:-3] + '.' + target
    if opts['relative']:
        if target not in targets_of(d):
            return None
        out = posixpath.relpath(sub, posixpath.dirname(d.name) or '.')
    else:
        out = opts['base'].format(target=target, subpath=sub)
    return out if lb.element is None else out + '#' + lb.id


def refs_xml(text):
    out = []
    for e in rm.parse_xml(text).iter():
        if e.get('class') == 'ref' and e.tag in ('a', 'span'):
            out.append((e.get('href'), squeeze(text_of(rm.dom(e)))))
    return out


def ids_xml(text):
    return [e.get('id') for e in rm.parse_xml(text).iter() if e.get('id')]


def check(c, p, b, opts, fmts, when):
    labels = b.labels()
    titles = parents(labels)
    docs = {str(d.src_filepath.subpath): d for d in p.docs()}
    nt = False
    ids = {}
    for n, d in docs.items():
        body = d.context['body']
        ids[n] = (ids_xml(no_entities(str(body.html))),
                  ids_xml(str(body.xhtml)))
    for m, _ in b.order():
        refs = [(r, resolve(labels, m, r)) for r in m.items
                if isinstance(r, Ref)]
        body = docs[m.name].context['body']
        where = '{} {}'.format(m.name, when)
        for i, target in enumerate(('html', 'xhtml')):
            want = []
            for r, lb in refs:
                t = expand(fmt_for(fmts, ('ref',) + lb.kind, 'html'), lb,
                           titles)
                want.append((url(b, m, lb, target, opts), squeeze(t)))
                if lb.element is not None:
                    c.check(ids[lb.doc.name][i].count(lb.id) == 1,
                            lambda: 'the anchor {!r} is {} times in the {} '
                            'of {} {}'.format(
                                lb.id, ids[lb.doc.name][i].count(lb.id),
                                target, lb.doc.name, when))
                nt |= lb.doc is not m and (
                    posixpath.dirname(lb.doc.name) !=
                    posixpath.dirname(m.name) or
                    len([x for x in labels if x.id == lb.id]) > 1)
            text = str(getattr(body, target))
            if target == 'html':
                text = no_entities(text)
            c.eq(refs_xml(text), want, 'references in the {} of {}'.format(
                target, where))
        tex = re.sub(r'\\textbf\{([^{}]*)\}', r'\1', str(body.tex))
        got = [(u, squeeze(t)) for u, t in
               re.findall(r'\\href\{([^{}]*)\}\{([^{}]*)\}', tex)]
        want = []
        txt = squeeze(str(body.txt))
        pos = 0
        for r, lb in refs:
            u = url(b, m, lb, 'pdf', opts)
            t = expand(fmt_for(fmts, ('ref',) + lb.kind, 'tex'), lb, titles)
            if u:
                want.append((u, squeeze(t)))
            else:
                c.check(squeeze(t) in squeeze(tex), lambda: 'the tex of {} '
                        'lacks {!r}: {!r}'.format(where, t, tex))
            t = squeeze(expand(fmt_for(fmts, ('ref',) + lb.kind, 'txt'), lb,
                               titles))
            i = txt.find(t, pos)
            c.check(i >= 0, lambda: 'the txt of {} lacks {!r} after {}: {!r}'
                    .format(where, t, pos, txt))
            pos = i + len(t)
        c.eq(got, want, 'references in the tex of ' + where)
    return nt


def setup(c, hi=5):
    b = book.Book(c, hi)
    for d in b.docs:
        d.title = 'Doc ' + d.name[:-3].replace('/', ' ')
        b.fill(d, p_id=0.5)
    for i, d in enumerate(b.docs):
        if c.bool(0.15):
            d.doc_id = c.choice(['my-id', 'the.id', 'x'])
            if d.doc_id in [x.doc_id for x in b.docs[:i]]:
                d.doc_id = None
    return b


def prop(c):
    b = setup(c)
    add_refs(c, b)
    opts = dict(relative=c.bool(0.7), base='/{target}/{subpath}')
    fmts = dict(DEFAULT, **REFDEFAULT)
    own = new_fmts(c) if c.bool(0.4) else {}
    own = {'ref_' + k: v for k, v in own.items()}
    fmts.update(own)
    p = Project(c.scratch / 'p')
    head = {}
    if not opts['relative']:
        head['relative_links'] = 'False'
        if c.bool(0.5):
            opts['base'] = c.choice(['https://example.org/{target}/{subpath}',
                                     '/base/{subpath}', '{subpath}'])
            head['base_url'] = opts['base']
    targets = {}
    for d in b.docs[1:]:
        if c.bool(0.15):
            targets[d.name] = c.choice(['html', 'xhtml', 'txt',
                                        'html, txt, pdf'])

    def save():
        write(p, b, own, {})
        for d in b.docs:
            t = targets.get(d.name, 'html, xhtml, tex, pdf, txt')
            if d is b.docs[0]:
                d.head.update(head)
            if d is b.docs[0] or d.name in targets:
                d.head['targets'] = t
        for d in b.docs:
            s = d.source()
            if (p.src / d.name).read_text(encoding='utf-8') != s:
                p.write(d.name, s)
        # targets are inherited by subdocuments
        for d, _ in b.order():
            for x in d.subs:
                x.inherited = targets.get(x.name) or \
                    getattr(d, 'inherited', None) or d.head['targets']
    save()
    for d in b.docs:
        c.note('{}: {!r}'.format(d.name, d.source()))
    p.open()
    nt = check(c, p, b, opts, fmts, 'at first')
    for step in range(c.int(0, 2)):
        k = c.choice(['insert', 'swap', 'tree', 'text'])
        d = c.choice(b.docs)
        if k == 'insert':
            e = b.element(d)
            e.id = None
            d.items.insert(c.int(0, len(d.items)), e)
        elif k == 'swap':
            d.items = c.shuffle(d.items)
        elif k == 'tree':
            b.attach()
        elif k == 'text':
            es = [e for e in d.elements() if e.id]
            if es:
                c.choice(es).text = b.text()
        save()
        c.note('{}. {} {}: {}'.format(
            step, k, d.name, [(x.name, x.source()) for x in b.docs]))
        labels = b.labels()
        if any(resolve(labels, m, r) is None for m in b.docs
               for r in m.items if isinstance(r, Ref)):
            raise Reject()
        p.doc.load()
        nt |= check(c, p, b, opts, fmts, 'after step %d' % step)
    if nt:
        c.nontrivial([d.source() for d in b.docs])


def missing(c):
    """Unknown labels and labels that are used twice are reported."""
    b = setup(c, 4)
    d = c.choice(b.docs)
    labels = b.labels()
    p = Project(c.scratch / 'p')
    kind = c.choice(['unknown', 'wrong doc', 'twice', 'removed', 'nolabel'])
    explicit = [lb for lb in labels if lb.element is not None and
                lb.element.id]
    ref = Ref('no-such-label', c.choice([None] + b.docs))
    if kind == 'twice':
        if not explicit:
            raise Reject()
        lb = c.choice(explicit)
        e = b.element(lb.doc)
        e.id, e.nolabel = lb.id, False
        lb.doc.items.insert(c.int(0, len(lb.doc.items)), e)
        write(p, b, {}, {})
        src = [x.source() for x in b.docs]
        c.note(repr(src))
        try:
            p.open()
            p.docs()
        except DuplicateLabel:
            c.nontrivial(src)
            return
        c.fail('no error for the label {!r} twice in {!r}'.format(
            lb.id, lb.doc.source()))
    if kind == 'wrong doc':
        bad = [(lb, x) for lb in labels if lb.id for x in b.docs
               if not [1 for y in labels if y.doc is x and y.id == lb.id]]
        if not bad:
            raise Reject()
        lb, x = c.choice(bad)
        ref = Ref(lb.id, x)
    elif kind == 'nolabel':
        es = [e for e in d.elements() if e.heading and e.id]
        if not es:
            raise Reject()
        e = c.choice(es)
        e.nolabel = True
        ref = Ref(e.id, d)
    if kind == 'removed':
        if not explicit:
            raise Reject()
        lb = c.choice(explicit)
        ref = Ref(lb.id, lb.doc)
    d.items.insert(c.int(0, len(d.items)), ref)
    write(p, b, {}, {})
    try:
        p.open()
        p.docs()
    except LabelNotFound:
        c.check(kind != 'removed', 'a label is not found')
        c.nontrivial(repr([x.source() for x in b.docs]))
        return
    if kind == 'removed':
        # the reference works until its label is removed
        index = [x.name for x, _ in b.order()].index(d.name)
        str(p.docs()[index].context['body'].html)
        lb.doc.items.remove(lb.element)
        write(p, b, {}, {})
        try:
            p.doc.load()
        except LabelNotFound:
            c.nontrivial(repr([x.source() for x in b.docs]))
            return
    src = [x.source() for x in b.docs]
    c.note(kind, repr(src))
    index = [x.name for x, _ in b.order()].index(d.name)
    for target in ('html', 'xhtml', 'tex', 'txt'):
        try:
            out = getattr(p.docs()[index].context['body'], target)
        except LabelNotFound:
            continue
        c.fail('no error for {!r} ({}) in the {} of {!r}: {!r}'.format(
            ref.source(), kind, target, src, str(out)))
    c.nontrivial(src)


PARTS = [('references', prop, 500, 6000), ('missing', missing, 200, 2000)]
