"""P10: a macro renders the same as the text it stands for."""
from .. import gen
from .. import refmodel as rm
from ..gen import Tag
from ..project import Project, header

RULE = ("Random macros in the header (and in the header of the parent "
        "document, overriding default macros or not), whose values have "
        "text, tags, attributes and other macros, used in text, tags, "
        "headings, lists and captions; every target has to render the same "
        "as the document in which the macros are replaced by hand. "
        "Non-trivial: a macro that uses another macro, or an inherited "
        "macro.")
ASSUMPTIONS = ["Macros are not used in code and verbatim tags here (see the "
               "known finding of P05).", "Macros that use themselves are "
               "only checked to terminate."]

NAMES = ['@mine', '@x1', '@H2O', '@my_macro', '@alpha', '@été', '@1H',
         '@deep', '@y2', '@zz']
DEFAULTS = {'@alpha': '@symbol{alpha}', '@beta': '@symbol{beta}',
            '@1H': '@sup{1}H', '@H2O': 'H@sub{2}O', '@times':
            '@symbol{times}', '@13C': '@sup{13}C', '@Omega': '@symbol{Omega}'}
ALIAS = {'@al': '@b', '@ital': '@i', '@wrap': '@foo[class=x1]',
         '@hd': '@subsection[nolabel]'}
FOLLOW = ['', ' ', '.', ',', '{}', '{ }', '-', ' and ', '. Then', ')', '+',
          '. ', '/', '.dm', '.title', '.index', '.count.', '.v2.x', '.5', '..']
TEXT = ['w', 'some text', 'é', 'a: b', 'x & y', '1 < 2', '; q', 'no. 1', "it's",
        '"q"', '50%']


class M:
    """A use of a macro"""

    def __init__(self, name, follow):
        self.name, self.follow = name, follow

    def write(self):
        return self.name + self.follow


def write(items):
    return ''.join(x.write() if isinstance(x, M) else
                   x if isinstance(x, str) else
                   '@' + x.name + x.attrs + '{' + write(x.children) + '}'
                   for x in items)


def expand(items, env):
    """Replace the macros by hand."""
    out = []
    for x in items:
        if isinstance(x, M):
            v = env.get(x.name)
            follow = '' if x.follow in ('{}', '{ }') else x.follow
            if v is None:
                # not a macro: an unknown tag without contents
                out.append(x.write())
            elif isinstance(v, str):
                out.append(v + follow)
            else:
                out.append(expand(v, env) + follow)
        elif isinstance(x, str):
            out.append(x)
        else:
            out.append('@' + x.name + x.attrs + '{' +
                       expand(x.children, env) + '}')
    return ''.join(out)


def items(c, usable, depth=2, hi=4):
    def one():
        k = c.weighted([(4, 'text'), (4 if usable else 0, 'macro'),
                        (2 if depth else 0, 'tag')])
        if k == 'text':
            return c.choice(TEXT)
        if k == 'macro':
            return M(c.choice(usable), c.choice(FOLLOW))
        return Tag(c.choice(['b', 'i', 'foo', 'sub', 'B']),
                   c.choice(['', '', '[class=x1]']),
                   items(c, usable, depth - 1, hi))
    out = c.list(one, 1, hi)
    # a macro name ends at a character that is not part of names
    fixed = []
    for i, x in enumerate(out):
        fixed.append(x)
        if isinstance(x, M) and x.follow == '' and i + 1 < len(out):
            fixed.append(' ')
        if isinstance(x, M) and x.follow in ('. Then',) and i + 1 < len(out):
            fixed.append(' ')
    return fixed


def macros(c, known, n):
    """New macros, each using earlier (or known) ones."""
    out = {}
    names = [x for x in NAMES if c.bool(0.5)][:n]
    chain = False
    for name in names:
        usable = [u for u in list(known) + list(out) if u != name
                  and u not in NAMES[NAMES.index(name):]]
        v = items(c, usable, 1, 3)
        if write(v).strip() != write(v) or not write(v).strip():
            v = ['v'] + v + ['w']
        v = unquote(v)
        chain |= any(isinstance(x, M) for x in v)
        out[name] = v
    return out, chain


def unquote(v):
    s = write(v)
    # quotes at the ends of an entry are removed by the header
    for q in '\'"':
        if s.startswith(q) and s.endswith(q):
            return ['v'] + v
    return v


def doc_source(c, usable):
    parts = []

    def block():
        k = c.weighted([(6, 'p'), (1, 'h'), (1, 'list'), (1, 'box')])
        it = items(c, usable)
        if k == 'p':
            return it
        if k == 'h':
            return ['@section[nolabel]{'] + it + ['}']
        if k == 'list':
            return ['@list{\n- '] + it + ['\n- '] + items(c, usable) + ['}']
        return ['@featurebox{'] + it + ['}']
    for b in c.list(block, 1, 4):
        parts += b + ['\n\n']
    if c.bool(0.3):
        a = c.choice(list(ALIAS))
        parts += [M(a, ''), '{in side}\n\n']
    return parts


def prop(c):
    env = dict(DEFAULTS)
    env.update(ALIAS)
    root, chain1 = macros(c, env, 4)
    env1 = dict(env)
    env1.update(root)
    child = c.bool(0.4)
    chain2 = False
    env2 = env1
    if child:
        extra, chain2 = macros(c, env1, 4)
        env2 = dict(env1)
        env2.update(extra)
    usable = [n for n in env2 if n not in ALIAS] + ['@unknownx']
    parts = doc_source(c, usable)
    src = write(parts)
    flat = expand(parts, env2)
    h1 = {k: write(v) for k, v in root.items()}
    h1.update(ALIAS)
    p = Project(c.scratch)
    if child:
        h2 = {k: write(v) for k, v in extra.items()}
        p.write('sub.dm', header(**h2) + src)
        h1['include'] = 'sub.dm'
    p.write('main.dm', header(targets='txt', **h1) +
            ('x' if child else src))
    c.note(repr(h1), repr(h2) if child else '', repr(src), repr(flat))
    if (chain1 or chain2 or child) and any(isinstance(x, M) for x in parts):
        c.nontrivial((h1, child and h2, src))
    p.open()
    doc = p.docs()[-1]
    got = doc.context['body']
    q = Project(c.scratch / 'ref')
    q.write('main.dm', header(targets='txt') + flat)
    q.open()
    want = q.doc.context['body']
    for fmt in ('default', 'html', 'xhtml', 'tex'):
        c.eq(str(getattr(got, fmt)), str(getattr(want, fmt)),
             '{} of {!r} with {!r}'.format(fmt, src, h1))


def recursive(c):
    """Macros that use themselves do not hang the loader."""
    names = ['@ra', '@rb', '@rc'][:c.int(1, 3)]
    entries = {}
    for n in names:
        v = ''
        for _ in range(c.int(1, 2)):
            v += c.choice(['t ', '', 'é.']) + c.choice(names) + c.choice(
                ['', ' ', '{}', '. '])
            if not v.endswith((' ', '}')):
                v += ' '
        entries[n] = v + '.'
    src = ' '.join(c.list(lambda: c.choice(names), 1, 4)) + ' end'
    c.note(repr(entries), repr(src))
    c.nontrivial((entries, src))
    p = Project(c.scratch)
    p.write('main.dm', header(targets='txt', **entries) + src)
    p.open()
    out = str(p.doc.context['body'].txt)
    c.check(out.strip().endswith('end'),
            lambda: 'text lost in {!r}'.format(out[:500]))
    c.check(len(out) < 100000, 'the text grows without bound')


PARTS = [('expand', prop, 2500, 30000), ('recursive', recursive, 100, 1000)]
