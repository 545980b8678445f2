"""P12: header entries are inherited and overridden along the document tree."""
import copy
import pathlib

from .. import gen
from ..project import Project

import disseminate
from disseminate import settings

RULE = ("Random trees of two to seven documents whose headers set random "
        "entries of every type (text, booleans, sets that are replaced or "
        "extended, nested dicts, macros, templates); the context of every "
        "document is compared to a reference model of inheritance (own "
        "header over the values of a different template over the parent "
        "over the defaults). A second load after random header edits has to "
        "give the same as the model too. Non-trivial: an entry is inherited "
        "over two levels or overridden between.")
ASSUMPTIONS = ["The values that come with a template are read by an "
               "independent reader from the context files of the built-in "
               "templates."]

DEFAULTS = copy.deepcopy(settings.default_context)
TEMPLATES = ['default', 'articles/basic', 'books/tufte', 'books/novel',
             'reports/basic']
TPL_DIR = pathlib.Path(disseminate.__file__).parent / 'templates'
COMPARED = ['title', 'author', 'custom', 'short', 'template', 'targets',
            'inactive_tags', 'relative_links', 'base_url', 'label_fmts',
            'label_resets', 'process_paragraphs', '@mac', '@H2O', 'level',
            'number', 'epub']


def unq(v):
    v = v.strip()
    return v[1:-1] if len(v) > 1 and v[0] == v[-1] == '"' else v


def template_values(name):
    f = TPL_DIR / name / 'context.txt'
    out = {}
    key = None
    for ln in (f.read_text().splitlines() if f.exists() else []):
        if not ln.strip():
            continue
        k, v = ln.split(':', 1)
        if ln[0] == ' ':
            out[key][k.strip()] = unq(v)
        elif v.strip():
            out[k] = unq(v)
        else:
            key = k
            out[key] = {}
    for k in ('inactive_tags',):
        if k in out:
            out[k] = {x.strip() for x in out[k].split(',')}
    return out


def merge(ctx, values):
    """Set values in a context (in place)."""
    for k, v in values.items():
        old = ctx.get(k)
        if isinstance(v, set) and k in ('targets', 'inactive_tags'):
            ctx[k] = set(v)
        elif isinstance(v, set) and isinstance(old, set):
            ctx[k] = old | v
        elif isinstance(v, dict) and isinstance(old, dict):
            new = dict(old)
            for a, b in v.items():
                if isinstance(b, set) and isinstance(new.get(a), set):
                    new[a] = new[a] | b
                else:
                    new[a] = b
            ctx[k] = new
        else:
            ctx[k] = v


def model(docs, i):
    """The context of document i."""
    d = docs[i]
    head = d['head']
    if d['parent'] is None:
        ctx = copy.deepcopy(DEFAULTS)
        ptemplate = None
        level = 0
    else:
        ctx = model(docs, d['parent'])
        ptemplate = ctx['template']
        level = ctx['level']
        for k in ('short',):
            ctx.pop(k, None)
    template = head.get('template', ctx['template'])
    if template != ptemplate:
        values = {}
        if template != 'default' and template not in ('books/novel!',):
            merge(values, template_values('default'))
        merge(values, template_values(template))
        merge(ctx, values)
    merge(ctx, head)
    ctx['level'] = level + 1
    return ctx


def fmt_set(c, v):
    v = sorted(v)
    k = c.choice(['comma', 'semi', 'block'])
    if len(v) == 1 or k == 'comma':
        return ', '.join(v)
    if k == 'semi':
        return '; '.join(v)
    return '\n' + '\n'.join('  ' + x for x in v)


def entries(c, root):
    head = {}
    src = []

    def put(k, v, text):
        head[k] = v
        src.append('{}: {}'.format(k, text))
    for k in ('title', 'author', 'custom', 'short', '@mac', '@H2O',
              'base_url'):
        if c.bool(0.25):
            w = gen.word(c)
            put(k, w, c.choice(['{}', '"{}"', "'{}'"]).format(w))
    if c.bool(0.3):
        t = c.choice(TEMPLATES)
        put('template', t, t)
    if c.bool(0.3):
        t = set(c.subset(['txt', 'tex', 'none', 'html'], 0.4)) or {'txt'}
        put('targets', t, fmt_set(c, t))
    elif root:
        put('targets', {'txt'}, 'txt')
    if c.bool(0.25):
        t = set(c.subset(['sidenote', 'foo', 'b', 'section'], 0.5)) or {'i'}
        put('inactive_tags', t, fmt_set(c, t))
    if c.bool(0.2):
        t = set(c.subset(['body', 'foo', 'bar'], 0.5)) or {'zed'}
        put('process_paragraphs', t, fmt_set(c, t))
    if c.bool(0.3):
        v = c.bool()
        put('relative_links', v, c.choice([str(v), str(v).lower(),
                                           str(v).upper()]))
    if c.bool(0.35):
        ks = c.subset(['caption_figure', 'heading', 'ref_heading_chapter',
                       'heading_chapter_html', 'mine', 'document'], 0.4)
        if ks:
            vals = {k: c.choice(['', '@b{x} ', '@label.title']) + gen.word(c)
                    for k in ks}
            put('label_fmts', vals, '\n' + '\n'.join(
                '  {}: "{}"'.format(k, v) for k, v in vals.items()))
    if c.bool(0.3):
        ks = c.subset(['part', 'chapter', 'section'], 0.5)
        if ks:
            vals = {k: set(c.subset(['figure', 'table', 'section', 'video'],
                                    0.5)) or {'q'} for k in ks}
            put('label_resets', vals, '\n' + '\n'.join(
                '  {}: {}'.format(k, ', '.join(sorted(v)))
                if len(v) > 1 else '  {}: {}'.format(k, list(v)[0])
                for k, v in vals.items()))
    if c.bool(0.2):
        put('epub', {'layout': 'fixed'}, '\n  layout: fixed')
    return head, c.shuffle(src)


def tree(c):
    n = c.int(2, 7)
    docs = []
    for i in range(n):
        parent = None if i == 0 else c.int(max(0, i - 3), i - 1)
        head, src = entries(c, i == 0)
        docs.append(dict(parent=parent, head=head, src=src,
                         dir='' if i == 0 else docs[parent]['dir'] +
                         c.choice(['', 'd{}/'.format(i)])))
    return docs


def write(p, docs, only=None):
    for i, d in enumerate(docs):
        if only is not None and i not in only:
            continue
        name = 'main.dm' if i == 0 else '{}f{}.dm'.format(d['dir'], i)
        kids = [(j, e) for j, e in enumerate(docs) if e['parent'] == i]
        lines = list(d['src'])
        if kids:
            lines.append('include:\n' + '\n'.join(
                '  ' + e['dir'][len(d['dir']):] + 'f{}.dm'.format(j)
                for j, e in kids))
        p.write(name, '---\n' + '\n'.join(lines) + '\n---\nbody %d' % i
                if lines else 'body %d' % i)


def order(docs, i=0):
    out = [i]
    for j, e in enumerate(docs):
        if e['parent'] == i:
            out += order(docs, j)
    return out


def compare(c, p, docs, when):
    got = p.docs()
    idx = order(docs)
    c.eq([d.src_filepath.name for d in got],
         ['main.dm' if i == 0 else 'f{}.dm'.format(i) for i in idx],
         'documents ' + when)
    for doc, i in zip(got, idx):
        want = model(docs, i)
        for k in COMPARED:
            a, b = doc.context.get(k), want.get(k)
            c.eq(a, b, '{}: entry {!r} of {} {}'.format(
                [(d['parent'], d['src']) for d in docs], k,
                doc.src_filepath.name, when))
        t = want['targets']
        c.eq(set(doc.targets), set() if 'none' in t else
             {'.' + x for x in t}, 'targets of document {} {}'.format(i, when))


def prop(c):
    docs = tree(c)
    p = Project(c.scratch)
    write(p, docs)
    c.note(*['{} (parent {}): {!r}'.format(i, d['parent'], d['src'])
             for i, d in enumerate(docs)])
    depth = max(model(docs, i)['level'] for i in range(len(docs)))
    if depth >= 3 and any(d['head'] for d in docs[1:]):
        c.nontrivial([(d['parent'], d['src']) for d in docs])
    p.open()
    compare(c, p, docs, 'when loaded')
    for step in range(c.int(0, 2)):
        # edit the headers of some documents
        ids = [i for i in range(len(docs)) if c.bool(0.4)]
        for i in ids:
            docs[i]['head'], docs[i]['src'] = entries(c, i == 0)
        write(p, docs, ids)
        c.note('edit', *['{}: {!r}'.format(i, docs[i]['src']) for i in ids])
        p.doc.load()
        compare(c, p, docs, 'after edit {}'.format(step))


PARTS = [('inherit', prop, 700, 8000)]
