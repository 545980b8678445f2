"""Generators and models shared by the properties."""

#: Tags that only format their contents: (name, class, html element, tex)
FMT = {
    'b': ('Bold', 'strong', r'\textbf'),
    'bold': ('Bold', 'strong', r'\textbf'),
    'textbf': ('Bold', 'strong', r'\textbf'),
    'strong': ('Bold', 'strong', r'\textbf'),
    'i': ('Italics', 'i', r'\textit'),
    'italics': ('Italics', 'i', r'\textit'),
    'textit': ('Italics', 'i', r'\textit'),
    'sup': ('Sup', 'sup', '^'),
    'sub': ('Sub', 'sub', '_'),
}
#: Names of tags without any special meaning
FREE = ['foo', 'h2x', 'abhängigkeit', 'my_tag', 'zz9', 'Qux', '7up',
        'b2', 'ii', 'supx', 'boldest']

WORDS = 'abcdefghij'
PLAIN = list('abcde fgh XYZ 019 ') + ['\n', '.', ',', ';', ':', '!', '?', '(',
                                      ')', '/', '+', '=', '*', '&', '<', '>',
                                      '#', '%', '$', '_', '^', '~', '\\', '|',
                                      'é', 'ß', 'Ω', '中', '\u2026', '\u20ac',
                                      '\U0001d538']


def word(c, lo=1, hi=6):
    return c.text(WORDS, lo, hi)


def plain(c, lo=0, hi=12, alphabet=PLAIN):
    """Text without tags, quotes, hyphens or blank lines."""
    t = c.text(alphabet, lo, hi)
    while '\n\n' in t or '\n \n' in t or '\n  ' in t:
        t = t.replace('\n\n', '\n').replace('\n \n', '\n').replace('\n  ',
                                                                   '\n')
    return t


class Tag:
    __slots__ = ('name', 'attrs', 'children', 'bare')

    def __init__(self, name, attrs='', children=(), bare=False):
        self.name = name
        self.attrs = attrs
        self.children = list(children)
        self.bare = bare

    def __repr__(self):
        return 'Tag({!r}, {!r}, {!r})'.format(self.name, self.attrs,
                                              self.children)


def source(nodes):
    """Write nodes (strings and Tags) as disseminate source."""
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
        else:
            out.append('@' + n.name + n.attrs)
            if not n.bare:
                out.append('{' + source(n.children) + '}')
    return ''.join(out)


def text_of(nodes):
    return ''.join(n if isinstance(n, str) else text_of(n.children)
                   for n in nodes)


def depth_of(nodes):
    return max([0] + [1 + depth_of(n.children) for n in nodes
                      if not isinstance(n, str)])


def count_tags(nodes):
    return sum(1 + count_tags(n.children) for n in nodes
               if not isinstance(n, str))


def nodes(c, depth=3, names=None, attrs=None, text=None, hi=4, bare=True,
          braces=True):
    """A random list of nodes."""
    names = names or (lambda: c.choice(['b', 'i', 'foo', 'sup', 'sub', 'bold',
                                        'zz9', 'my_tag']))
    text = text or (lambda: plain(c))
    out = []

    def one():
        k = c.weighted([(5, 'text'), (5 if depth > 0 else 0, 'tag'),
                        (1 if braces else 0, 'brace'),
                        (1 if bare else 0, 'bare'), (0.5, 'at')])
        if k == 'text':
            return [text()]
        if k == 'tag':
            a = attrs() if attrs else ''
            return [Tag(names(), a, nodes(c, depth - 1, names, attrs, text,
                                          hi, bare, braces))]
        if k == 'brace':
            return ['{'] + nodes(c, min(depth - 1, 1), names, attrs, text, 2,
                                 bare, braces) + ['}']
        if k == 'bare':
            # A tag without contents has to end at its name
            return [Tag(names(), bare=True),
                    c.choice([' ', '.', ',', ')', '!', '-x', '@ '])]
        return [c.choice(['@ ', '@@ ', '@.', 'a@!'])]
    for group in c.list(one, 0, hi):
        out += group
    return merge(out)


def merge(items):
    out = []
    for n in items:
        if isinstance(n, str):
            if not n:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += n
                continue
        out.append(n)
    return out


def tree(obj, unwrap=('p',)):
    """Convert the content of a disseminate tag to nested tuples of plain
    values: strings and (name, class name, attributes, children)."""
    if isinstance(obj, str):
        return [obj] if obj else []
    if isinstance(obj, list):
        out = []
        for x in obj:
            out += tree(x, unwrap)
        return merge(out)
    if obj.name in unwrap:
        return tree(obj.content, unwrap)
    attrs = {k: (v if isinstance(v, (str, int)) else v.__name__)
             for k, v in obj.attributes.items()}
    return [(obj.name, type(obj).__name__, attrs, tree(obj.content, unwrap))]
