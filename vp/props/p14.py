"""P14: headings, figures and tables are numbered in document order."""
import re

from .. import book
from .. import gen
from .. import refmodel as rm
from ..project import Project
from .p09 import no_entities, text_of

RULE = ("Random trees of one to five documents with headings of every level, "
        "figures and tables (with and without ids, the same id and the same "
        "caption in several documents, headings without label), random "
        "label_resets and label_fmts in the header of the root document, and "
        "edits of contents and of the tree. The numbers, titles and anchors "
        "of every heading and caption in html, xhtml, tex and txt have to "
        "equal the ones of a reference numbering after the first load and "
        "after each edit. Non-trivial: numbers are reset and elements come "
        "from several documents.")
ASSUMPTIONS = ["Titles and captions are single sentences of plain words.",
               "label_fmts are set in the header of the root document (those "
               "of subdocuments are a known finding)."]

FIELDS = ['title', 'number', 'tree_number', 'part_number', 'chapter_number',
          'section_number', 'subsection_number', 'chapter_title',
          'section_title', 'part_title']
DEFAULT = {'caption_figure': '@b{Fig. @label.number}. ',
           'caption_table': '@b{Table @label.number}. ',
           'heading': '@label.tree_number. @label.title',
           'heading_title': '@label.title',
           'heading_part': 'Part @label.part_number. @label.title',
           'heading_chapter': 'Chapter @label.chapter_number. @label.title'}
KINDS = ['heading', 'heading_title', 'heading_part', 'heading_chapter',
         'heading_section', 'heading_subsection', 'heading_subsubsection',
         'caption', 'caption_figure', 'caption_table']


def value(lb, titles, field):
    if field == 'title':
        return lb.title
    if field in ('number', 'tree_number'):
        return str(getattr(lb, field))
    k, what = field.rsplit('_', 1)
    n = lb.numbers.get(k)
    if what == 'number':
        return '' if n is None else str(n)
    return titles[id(lb)].get(k) or ''


def parents(labels):
    """The titles of the headings above each label."""
    levels = ['part', 'chapter', 'section', 'subsection', 'subsubsection']
    out = {}
    cur = {}
    for lb in labels:
        k = lb.kind[-1]
        if k in levels:
            cur[k] = lb.title
            for x in levels[levels.index(k) + 1:]:
                cur[x] = None
        out[id(lb)] = dict(cur)
    return out


def fmt_for(fmts, kind, target):
    keys = list(kind)
    while keys:
        k = '_'.join(keys)
        for t in ((k + '_' + target, k) if target else (k,)):
            if t in fmts:
                return fmts[t]
        keys.pop()
    raise KeyError(kind)


def expand(fmt, lb, titles):
    """The text of a format string."""
    fmt = re.sub(r'@b\{([^}]*)\}', r'\1', fmt)
    return re.sub(r'@label\.([a-z_]+)',
                  lambda m: value(lb, titles, m.group(1)), fmt)


def norm(s):
    return ' '.join(s.split())


def new_fmts(c):
    out = {}
    for _ in range(c.int(1, 4)):
        k = c.choice(KINDS) + c.choice(['', '', '_html', '_tex'])
        parts = []
        for _ in range(c.int(1, 3)):
            f = '@label.' + c.choice(FIELDS)
            if c.bool(0.3):
                f = '@b{' + c.choice(['No ', 'w', '']) + f + '}'
            parts.append(f)
        out[k] = c.choice(['', 'W ', 'é ']) + c.choice(
            [' ', ' - ', ': ', ' / ']).join(parts) + c.choice(['', '.', ' z'])
    return out


def new_resets(c):
    out = {}
    kinds = ['part', 'chapter', 'section', 'subsection', 'subsubsection',
             'figure', 'table', 'title']
    for _ in range(c.int(1, 3)):
        k = c.choice(['part', 'chapter', 'section', 'subsection',
                      'subsubsection', 'title', 'document', 'figure',
                      'document-level-2', 'document-level-1', 'heading',
                      'caption'])
        v = [x for x in c.subset(kinds, 0.3) if x != k]
        if v:
            out[k] = v
    return out


def observed_xml(text):
    """[(element, id, text)] of headings and captions"""
    out = []

    def walk(d):
        if isinstance(d, str):
            return
        tag, attrs, children = d
        if tag in ('h1', 'h2', 'h3', 'h4', 'h5', 'figcaption', 'caption'):
            out.append((tag, attrs.get('id'), norm(full_text(d))))
        else:
            for x in children:
                walk(x)
    walk(rm.dom(rm.parse_xml(text)))
    return out


def full_text(d):
    return text_of(d)


TEX = re.compile(r'(?:\\setcounter\{(\w+)\}\{(-?\d+)\}\s*)?'
                 r'\\(title|part|chapter|section|subsection|subsubsection|'
                 r'caption)\{([^{}]*)\}(?: \\label\{([^{}]*)\})?')


def observed_tex(tex):
    tex = re.sub(r'\\textbf\{([^{}]*)\}', r'\1', tex)
    return [(m.group(3), m.group(1), int(m.group(2)) if m.group(2) else None,
             norm(m.group(4)), m.group(5)) for m in TEX.finditer(tex)]


def squeeze(s):
    return ''.join(s.split())


def check(c, p, b, fmts, when):
    labels = b.labels()
    titles = parents(labels)
    docs = p.docs()
    c.eq([str(d.src_filepath.subpath) for d in docs],
         [d.name for d, _ in b.order()], 'documents ' + when)
    for d, (m, _) in zip(docs, b.order()):
        body = d.context['body']
        where = '{} {}'.format(m.name, when)
        for target in ('html', 'xhtml'):
            want = []
            for e in m.elements():
                tag = (book.HTML[e.kind] if e.heading else
                       'figcaption' if e.kind == 'figure' else 'caption')
                if e.label is None:
                    want.append((tag, e.id, e.text))
                    continue
                t = expand(fmt_for(fmts, e.label.kind, 'html'), e.label,
                           titles)
                if not e.heading:
                    t += e.text
                want.append((tag, e.label.id, t))
            text = str(getattr(body, target))
            if target == 'html':
                text = no_entities(text)
            got = observed_xml(text)
            want = [(t, i, squeeze(x)) for t, i, x in want]
            got = [(t, None if auto(i) else i, squeeze(x))
                   for t, i, x in got]
            c.eq(got, want, 'headings and captions of the {} of {}'.format(
                target, where))
        want = []
        for e in m.elements():
            if e.label is None:
                want.append((e.kind, None, None, squeeze(e.text), None))
                continue
            t = expand(fmt_for(fmts, e.label.kind, 'tex'), e.label, titles)
            if e.heading:
                want.append((e.kind, e.kind, e.label.number - 1, squeeze(t),
                             e.label.id))
            else:
                want.append(('caption', None, None, squeeze(t + e.text),
                             e.label.id))
        got = [(k, s, n, squeeze(t), None if auto(i) else i)
               for k, s, n, t, i in observed_tex(str(body.tex))]
        c.eq(got, want, 'headings and captions of the tex of ' + where)
        txt = squeeze(str(body.txt))
        pos = 0
        for e in m.elements():
            t = e.text
            if e.label is not None:
                t = expand(fmt_for(fmts, e.label.kind, 'txt'), e.label,
                           titles)
                if not e.heading:
                    t += e.text
            i = txt.find(squeeze(t), pos)
            c.check(i >= 0, lambda: 'the txt of {} lacks {!r} after {}: {!r}'
                    .format(where, t, pos, txt))
            pos = i + len(squeeze(t))
    return labels


def auto(id):
    """The generated id of a caption."""
    return id is not None and re.match('caption-[0-9a-f]{10}$', id)


def write(p, b, fmts, resets):
    root = b.docs[0]
    root.head = {'targets': 'html, xhtml, tex, txt'}
    if fmts:
        root.head['label_fmts'] = '\n' + '\n'.join(
            '  {}: "{}"'.format(k, v) for k, v in fmts.items())
    if resets:
        root.head['label_resets'] = '\n' + '\n'.join(
            '  {}: {}'.format(k, ', '.join(v)) for k, v in resets.items())
    for d in b.docs:
        s = d.source()
        f = p.src / d.name
        if not f.exists() or f.read_text(encoding='utf-8') != s:
            p.write(d.name, s)


def prop(c):
    b = book.Book(c)
    for d in b.docs:
        b.fill(d)
    fmts = new_fmts(c) if c.bool(0.5) else {}
    resets = new_resets(c) if c.bool(0.5) else {}
    if c.bool(0.2):
        c.choice(b.docs).doc_id = 'my-id'
    p = Project(c.scratch / 'p')
    all_fmts = dict(DEFAULT, **fmts)
    for k, v in resets.items():
        b.resets[k] = b.resets.get(k, set()) | set(v)
    write(p, b, fmts, resets)
    for d in b.docs:
        c.note('{}: {!r}'.format(d.name, d.source()))
    p.open()
    labels = check(c, p, b, all_fmts, 'at first')
    nt = reset_seen(labels)
    for step in range(c.int(0, 3)):
        k = c.choice(['fill', 'insert', 'delete', 'swap', 'tree'])
        d = c.choice(b.docs)
        if k == 'fill':
            b.fill(d)
        elif k == 'insert':
            d.items.insert(c.int(0, len(d.items)), b.element(d))
        elif k == 'delete' and d.items:
            del d.items[c.int(0, len(d.items) - 1)]
        elif k == 'swap':
            d.items = c.shuffle(d.items)
        elif k == 'tree':
            b.attach()
        write(p, b, fmts, resets)
        c.note('{}. {} {}: {}'.format(
            step, k, d.name, [(x.name, x.source()) for x in b.docs]))
        p.doc.load()
        labels = check(c, p, b, all_fmts, 'after step %d' % step)
        nt |= reset_seen(labels)
    if nt:
        c.nontrivial([d.source() for d in b.docs])


def reset_seen(labels):
    seen = {}
    for lb in labels:
        if lb.element is None:
            continue
        n = seen.get(lb.kind)
        if n is not None and lb.number <= n[0] and lb.doc is not n[1]:
            return True
        seen[lb.kind] = (lb.number, lb.doc)
    return False


def sub_fmts(c):
    """A subdocument that sets its own label format."""
    p = Project(c.scratch / 'p')
    w = gen.word(c, 1, 3)
    p.write('main.dm', '---\ntargets: html\ninclude:\n  a.dm\n---\n'
            '@chapter{One}')
    p.write('a.dm', '---\nlabel_fmts:\n  heading_chapter: "' + w + 'Q '
            '@label.title"\n---\n@chapter{Two}')
    p.open()
    got = observed_xml(str(p.docs()[1].context['body'].html))
    c.check(got[0][2] == w + 'Q Two', lambda: 'the label_fmts of a '
            'subdocument are not used: {!r}'.format(got), key='sub-fmts')


def known_findings(listed, scratch):
    from ..engine import Case, Violation
    if 'sub-fmts' in listed:
        case = Case(prefix=[0] * 10, scratch=scratch.new())
        try:
            sub_fmts(case)
        except Violation as v:
            yield v.key


PARTS = [('numbers', prop, 500, 6000), ('subformats', sub_fmts, 10, 20)]
