"""P01: markup parses to exactly the tags that were written."""
from disseminate.tags.exceptions import TagError

from .. import gen
from ..gen import Tag
from ..project import one_doc

RULE = ("Random trees of tags (known formatting tags under all their aliases "
        "and letter cases, unknown and non-ASCII names, tags without "
        "contents, attributes, balanced braces, lone '@' and unicode text) "
        "are written as source, loaded as a document and compared to the tag "
        "tree of the document; a case is non-trivial when it has at least "
        "two tags, one of them nested or next to a brace. The second part "
        "unbalances the braces of such a source and expects a TagError.")
ASSUMPTIONS = ["Brace nesting is kept below the parser's limit of 10 levels."]

ATTRS = [('', {}),
         ('[x=1]', {'x': '1'}),
         ('[id=my-id]', {'id': 'my-id'}),
         ('[class="a b"]', {'class': 'a b'}),
         ("[class='{}']", {'class': '{}'}),
         ('[pos]', {'pos': 'StringPositionalValue'}),
         ('[12 y=z]', {'12': 'IntPositionalValue', 'y': 'z'}),
         ('[class.html=m width.tex="5 cm"]', {'class.html': 'm',
                                              'width.tex': '5 cm'}),
         ('[k="@b{x}"]', {'k': '@b{x}'}),
         ('[ z=é ]', {'z': 'é'})]
ATTR_MAP = dict(ATTRS)


def make_names(c):
    def name():
        k = c.weighted([(4, 'fmt'), (3, 'free'), (1, 'case')])
        if k == 'fmt':
            return c.choice(list(gen.FMT))
        if k == 'free':
            return c.choice(gen.FREE)
        return c.choice(['Bold', 'B', 'SUP', 'Italics', 'TextBF'])
    return name


def make(c, depth=3):
    return gen.nodes(c, depth=depth, names=make_names(c),
                     attrs=lambda: c.weighted([(4, ATTRS[0][0])] +
                                              [(1, a) for a, _ in ATTRS[1:]]))


def limit_depth(nodes, level=0):
    """Whether the brace nesting stays below the limit of the parser."""
    best = level
    for n in nodes:
        if isinstance(n, str):
            lv = level
            for ch in n:
                lv += (ch == '{') - (ch == '}')
                best = max(best, lv)
        else:
            best = max(best, limit_depth(n.children, level + 1))
    return best


def expected(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
        else:
            cls = gen.FMT.get(n.name.lower(), ('Tag',))[0]
            out.append((n.name, cls, ATTR_MAP[n.attrs],
                        expected(n.children)))
    return gen.merge(out)


def drop_space(tree):
    """Whitespace at paragraph edges is not significant."""
    return [x for x in tree if not (isinstance(x, str) and not x.strip())]


def squeeze(tree):
    out = []
    for x in tree:
        if isinstance(x, str):
            x = ' '.join(x.split())
            if x:
                out.append(x)
        else:
            out.append((x[0], x[1], x[2], squeeze(x[3])))
    return out


def roundtrip(c):
    nodes = make(c)
    if limit_depth(nodes) > 8:
        from ..engine import Reject
        raise Reject()
    src = gen.source(nodes)
    c.note(repr(src))
    if gen.count_tags(nodes) >= 2 and (gen.depth_of(nodes) > 1 or '{ ' in src):
        c.nontrivial(src)
    p, doc = one_doc(c.scratch, 'S' + src + 'E', targets='txt')
    body = doc.context['body']
    got = gen.tree(body)
    while len(got) == 1 and not isinstance(got[0], str) and \
            got[0][0] == 'body':
        got = got[0][3]
    exp = expected(['S'] + nodes + ['E'])
    c.eq(got, exp, 'tag tree of {!r}'.format(src))


def unbalanced(c):
    nodes = make(c, depth=2)
    nodes = nodes + [Tag(make_names(c)(), '', ['x'])]
    src = gen.source(nodes)
    # cut the source inside of the contents of a tag
    tags = []

    def walk(ns, pos):
        for n in ns:
            if isinstance(n, str):
                pos += len(n)
            else:
                pos += 1 + len(n.name) + len(n.attrs)
                if not n.bare:
                    start = pos + 1
                    pos = walk(n.children, start)
                    tags.append((n.name, start, pos))
                    pos += 1
        return pos
    walk(nodes, 0)
    name, start, end = c.choice(tags)
    cut = c.int(start, end)
    src2 = src[:cut]
    # the text up to the cut must not close the tag; and the cut must not
    # split a tag's name from its contents in such a way that it is closed.
    c.note(repr(src2))
    c.nontrivial(src2)
    try:
        p, doc = one_doc(c.scratch, src2, targets='txt')
    except TagError as e:
        c.check('not closed' in str(e), 'TagError without a reason: ' + str(e))
        return
    c.fail('The source {!r} has an unclosed tag {!r} but no TagError was '
           'raised; body: {!r}'.format(src2, name, doc.context['body']))


PARTS = [('roundtrip', roundtrip, 2400, 40000),
         ('unbalanced', unbalanced, 800, 8000)]
