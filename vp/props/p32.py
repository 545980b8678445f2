"""P32: rendering has no effect on documents, and gives the same each time."""
from disseminate.tags.tag import Tag

from .. import engine
from ..project import Project, header
from .p31 import Gen, clean, GOOD

RULE = ("Random documents (tags of all kinds in any combination, as in P31, "
        "and texts with labels, references, lists, tables, figures, notes "
        "and macros) in projects of two documents, rendered to html, xhtml, "
        "tex and text in random orders, several times, whole or tag by tag, "
        "also from copies of the tags. Each result (or error) has to be the "
        "same as that of the first rendering in a fresh session for that "
        "format alone; and the tree of tags (names, attributes, contents), "
        "the entries of the contexts and the labels have to be the same "
        "after as before. Non-trivial: three or more tags, two of them "
        "nested, which can be rendered to all formats.")
ASSUMPTIONS = ['Diagrams (asy) are not used.']
FORMATS = ['html', 'xhtml', 'tex', 'default']
MORE = GOOD + ['@marginfig{{@img[width=50%]{{p.png}} @caption{{w{0}}}}}',
               '@fig{{@panel[width=30% class=x]{{@img{{p.png}} @caption{{'
               'w{0}}}}}}}', '@img[width.html=20% width=30% class=c]{{p.png}}',
               '@sidenote{{n @b{{w{0}}}}}', '@python{{x = {0}}}',
               '@eq{{\\frac{{{0}}}{{2}} @b{{y}}}}', '@author{{A; B}}',
               '@titlepage', '@table{{@csv{{a,b\n@b{{w{0}}},2}} @caption{{c'
               '{0}}}}}', '@ref{{doc:a-dm}}', '@href[href=x]{{w{0}}}',
               "'w{0}' -- @sup{{2}}", '@generic[class=y id=q{0}]{{z}}',
               '@marginfig[3cm class=y]{{@img{{p.png}}}}']


def text(c, i):
    if c.bool(0.5):
        g = Gen(c)
        return g.seq(c.choice([6, 12])), g.tags > 2 and g.nested
    seen, out = set(), []
    for n in range(c.int(2, 7)):
        t = c.choice(MORE)
        if t in seen and ('id=' in t or 'titlepage' in t):
            continue
        seen.add(t)
        out.append(t.format(n + 10 * i, i, c.int(0, 1)))
    return '\n\n'.join(out), True


def tree(x):
    if isinstance(x, Tag):
        return (type(x).__name__, x.name, tuple(
            (k, str(v)) for k, v in (x.attributes or {}).items()),
            tree(x.content))
    if isinstance(x, (list, tuple)):
        return tuple(tree(i) for i in x)
    if isinstance(x, dict):
        return tuple((k, tree(v)) for k, v in x.items())
    return str(x) if isinstance(x, str) else type(x).__name__


def state(doc):
    lm = doc.context['label_manager']
    ctx = doc.context
    return dict(tags=tree(ctx['body']),
                context={k: tree(ctx[k]) for k in ctx.keys()
                         if k not in ('builders', 'body', 'mtime')},
                labels=[(x.doc_id, x.id, str(getattr(x, 'title', '')),
                         str(x.order)) for x in lm.get_labels_by_kind()])


def render(tag, fmt):
    try:
        return str(getattr(tag, fmt))
    except Exception as e:
        if not clean(e):
            raise
        return 'error ' + type(e).__name__


def load(p):
    p.env = None
    env = p.open()
    docs = p.docs()
    for d in docs:
        d.context['label_manager'].get_labels_by_kind()
    return env, docs


def prop(c):
    p = Project(c.scratch)
    a, n1 = text(c, 0)
    b, n2 = text(c, 1)
    head = dict(targets='html, tex, txt, xhtml', include='\n  a.dm')
    head['@mac'] = 'M @b{m}'
    p.write('main.dm', header(**head) + '@section[id=s0]{S}\n\n' +
            a.replace('@section[id=s0]', '@section'))
    p.write('a.dm', '@section[id=s1]{S}\n\n' +
            b.replace('@section[id=s1]', '@section'))
    p.write('p.png', b'\x89PNG\r\n\x1a\n\x00\xff')
    c.note('main.dm:\n' + a)
    c.note('a.dm:\n' + b)
    want = {}
    try:
        env, docs = load(p)
        if len(docs) != 2:
            raise engine.Reject()
    except Exception as e:
        if not clean(e):
            raise
        raise engine.Reject()
    bad = False
    for fmt in FORMATS:
        env, docs = load(p)
        for i, d in enumerate(docs):
            want[fmt, i] = render(d.context['body'], fmt)
            bad |= want[fmt, i].startswith('error')
    env, docs = load(p)
    before = [state(d) for d in docs]
    steps = []
    for _ in range(c.int(4, 8)):
        i = c.int(0, 1)
        fmt = c.choice(FORMATS)
        how = c.weighted([(4, 'whole'), (1, 'parts'), (1, 'copy')])
        steps.append((fmt, i, how))
        body = docs[i].context['body']
        if how == 'copy':
            body = body.copy()
        elif how == 'parts':
            # (the results of parts are not compared)
            for t in c.subset(list(body.flatten(filter_tags=True)), 0.5):
                render(t, fmt)
            continue
        got = render(body, fmt)
        c.eq(got, want[fmt, i], 'document {} in {} after {}'.format(
            i, fmt, steps), key='differs')
    for i, d in enumerate(docs):
        after = state(d)
        for k in after:
            c.eq(after[k], before[i][k], '{} of document {} after {}'.format(
                k, i, steps), key='changed')
    c.count('rendered')
    if (n1 or n2) and not bad:
        c.nontrivial([a, b])


PARTS = [('documents', prop, 400, 8000)]
