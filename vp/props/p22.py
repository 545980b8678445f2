"""P22: tables of contents list the labels of the project."""
import re

from .. import book
from .. import refmodel as rm
from ..project import Project
from .p09 import no_entities, text_of
from .p14 import DEFAULT, expand, fmt_for, parents, squeeze, write
from .p15 import REFDEFAULT, setup, url

RULE = ("Random trees of documents with headings, figures and tables of all "
        "levels (with ids used in several documents), with tables of "
        "contents of any kind (headings, documents, figures, tables; of this "
        "or all documents; abbreviated) in bodies and headers, before and "
        "after edits of any document. Every table of contents has to list "
        "exactly the labels of its kinds, once, in order, nested by level, "
        "with the text and link of a reference. Non-trivial: at least three "
        "entries from two documents.")
ASSUMPTIONS = ["The nesting is compared where no heading is above the level "
               "of the first one."]
LEVELS = ['title', 'part', 'chapter', 'section', 'subsection',
          'subsubsection']
FMTS = dict(DEFAULT, **REFDEFAULT)


class Toc:
    def __init__(self, kinds):
        self.kinds = kinds

    def source(self):
        return '@toc{' + ' '.join(self.kinds) + '}'


def kinds(c):
    main = c.weighted([(4, ['headings']), (1, ['heading']),
                       (2, ['documents']), (1, ['document']),
                       (1, ['figures']), (0.5, ['table']),
                       (1.5, ['headings', 'documents']),
                       (0.5, ['figures', 'tables'])])
    out = list(main)
    if c.bool(0.6):
        out.append('all')
        k = c.choice(['', 'expanded', 'abbreviated', 'abbreviated'])
        if k and main[0].startswith(('heading', 'document')):
            out.append(k)
    elif c.bool(0.2):
        out.append('current')
    return c.shuffle(out)


def entries(labels, d, ks):
    """The labels and their levels."""
    out = []
    for k in ('heading', 'document', 'figure', 'table'):
        if k in ks or k + 's' in ks:
            out += [lb for lb in labels if k in lb.kind and
                    ('all' in ks or lb.doc is d)]
    if 'abbreviated' in ks:
        # of the other documents, the first entry only
        last = None
        keep = []
        for lb in out:
            if lb.doc is d or lb.doc is not last:
                keep.append(lb)
            last = lb.doc
        out = keep
    res = []
    level = 1
    for lb in out:
        if lb.kind[-1] in LEVELS:
            level = LEVELS.index(lb.kind[-1])
        res.append((lb, level))
    return res


def nest(items):
    """[(level, value)] as nested lists of values."""
    out = []
    i = 0
    while i < len(items):
        out.append(items[i][1])
        j = i + 1
        while j < len(items) and items[j][0] > items[0][0]:
            j += 1
        if j > i + 1:
            out.append(nest(items[i + 1:j]))
        i = j
    return out


def flat(x):
    out = []
    for y in x:
        out += flat(y) if isinstance(y, list) else [y]
    return out


def observed(dom):
    out = []
    for x in dom[2]:
        if isinstance(x, str):
            continue
        if x[0] == 'ol':
            out.append(observed(x))
        elif x[0] == 'li':
            a = [y for y in x[2] if not isinstance(y, str)][0]
            out.append((a[1].get('href'), squeeze(text_of(a))))
        else:
            out.append(x)
    return out


def check_toc(c, b, labels, titles, d, ks, obj, opts, where, whole):
    items = entries(labels, d, ks)
    for target in ('html', 'xhtml'):
        text = str(getattr(obj, target))
        if target == 'html':
            text = no_entities(text)
        got = [observed(rm.dom(e)) for e in rm.parse_xml(
            text if text.strip().startswith('<div') else
            '<div>' + text + '</div>').iter('ol')
               if e.get('class') == 'toc']
        want = [(lv, (url(b, d, lb, target, opts),
                      squeeze(expand(fmt_for(FMTS, ('ref',) + lb.kind,
                                             'html'), lb, titles))))
                for lb, lv in items]
        c.eq(len(got), 1, 'tables of contents in the {} of {}'.format(
            target, where))
        c.eq(flat(got[0]), [v for _, v in want],
             'entries of {} in the {} of {}'.format(ks, target, where))
        if all(lv >= items[0][1] for _, lv in items) and sorted_levels(items):
            c.eq(got[0], nest(want), 'nesting of {} in the {} of {}'.format(
                ks, target, where))
    tex = re.sub(r'\\textbf\{([^{}]*)\}', r'\1', str(obj.tex))
    m = re.search(r'\\begin\{easylist\}.*?\\end\{easylist\}', tex, re.S)
    c.check(m is not None, lambda: 'no list in the tex of {}: {!r}'.format(
        where, tex))
    got = [(squeeze(x[0]), x[1], squeeze(x[2])) for x in re.findall(
        r'^(§*) (?:\\href\{([^{}]*)\})?\{?([^{}\n]*)\}?$', m.group(0), re.M)]
    want = [('§' * lv, url(b, d, lb, 'pdf', opts) or '', squeeze(
        expand(fmt_for(FMTS, ('ref',) + lb.kind, 'tex'), lb, titles)))
        for lb, lv in items]
    c.eq(got, want, 'entries of {} in the tex of {}'.format(ks, where))
    return len(items) > 2 and len({lb.doc.name for lb, _ in items}) > 1


def sorted_levels(items):
    """Only the first level restarts below (see ASSUMPTIONS)."""
    stack = []
    for _, lv in items:
        while stack and stack[-1] > lv:
            stack.pop()
        if not stack or stack[-1] < lv:
            if stack and any(x > lv for x in stack):
                return False
            stack.append(lv)
    # a level may not come back to a level that was skipped
    seen = []
    for _, lv in items:
        if seen and lv < seen[-1] and lv not in seen:
            return False
        while seen and seen[-1] > lv:
            seen.pop()
        if not seen or seen[-1] < lv:
            seen.append(lv)
    return True


def prop(c):
    b = setup(c)
    opts = dict(relative=True, base='')
    p = Project(c.scratch / 'p')
    tocs = {}
    htocs = {}
    for d in b.docs:
        if d is b.docs[0] or c.bool(0.6):
            t = Toc(kinds(c))
            d.items.insert(c.int(0, len(d.items)), t)
            tocs[d.name] = t
        if c.bool(0.4):
            htocs[d.name] = kinds(c)

    def save():
        write(p, b, {}, {})
        for d in b.docs:
            d.inherited = 'html, xhtml, tex, pdf, txt'
            if d is b.docs[0]:
                d.head['targets'] = d.inherited
            if d.name in htocs:
                d.head['toc'] = ' '.join(htocs[d.name])
            s = d.source()
            if (p.src / d.name).read_text(encoding='utf-8') != s:
                p.write(d.name, s)
    save()
    for d in b.docs:
        c.note('{}: {!r}'.format(d.name, d.source()))
    p.open()
    nt = False
    for step in range(c.int(1, 3)):
        if step:
            k = c.choice(['insert', 'swap', 'tree', 'remove'])
            d = c.choice(b.docs)
            if k == 'insert':
                d.items.insert(c.int(0, len(d.items)), b.element(d))
            elif k == 'swap':
                d.items = c.shuffle(d.items)
            elif k == 'remove':
                es = d.elements()
                if es:
                    d.items.remove(c.choice(es))
            else:
                b.attach()
            save()
            c.note('{}. {} {}: {}'.format(
                step, k, d.name, [(x.name, x.source()) for x in b.docs]))
            p.doc.load()
        labels = b.labels()
        titles = parents(labels)
        for d, (m, _) in zip(p.docs(), b.order()):
            where = '{} (step {})'.format(m.name, step)
            # captions without ids have generated ids
            for lb, x in zip(labels, p.doc.label_manager.labels.values()):
                if lb.id is None:
                    lb.id = x.id
            if m.name in tocs:
                nt |= check_toc(c, b, labels, titles, m, tocs[m.name].kinds,
                                d.context['body'], opts, where, False)
            if m.name in htocs:
                nt |= check_toc(c, b, labels, titles, m, htocs[m.name],
                                d.context['toc'], opts,
                                'the header of ' + where, True)
    if nt:
        c.nontrivial([d.source() for d in b.docs])


def collapsed(c):
    """'all headings collapsed' lists the documents only."""
    p = Project(c.scratch / 'p')
    p.write('main.dm', '---\ntargets: html\ninclude:\n  a.dm\n---\n'
            '@toc{all headings collapsed}\n\n@section{One}')
    p.write('a.dm', '@section{Two}')
    p.open()
    got = observed([rm.dom(e) for e in rm.parse_xml(str(
        p.doc.context['body'].html)).iter('ol')][0])
    c.check([h for h, _ in flat(got)] == ['', 'a.html'],
            lambda: 'collapsed table of contents: {!r}'.format(got),
            key='collapsed')


def known_findings(listed, scratch):
    from ..engine import Case, Violation
    if 'collapsed' in listed:
        try:
            collapsed(Case(prefix=[0] * 10, scratch=scratch.new()))
        except Violation as v:
            yield v.key


PARTS = [('collapsed', collapsed, 1, 1), ('toc', prop, 400, 5000)]
