"""P13: attributes are read as written and chosen by target."""
import re

from disseminate.attributes import Attributes
from disseminate.utils.types import (FloatPositionalValue,
                                     IntPositionalValue,
                                     StringPositionalValue, ispositional)

from .. import refmodel as rm
from ..project import Project, header

RULE = ("(strings) Random attribute strings of key/value and positional "
        "entries, quoted in both styles or not, with target endings, "
        "repeats, commas and spaces, are read into the entries that were "
        "written; filtered for a target (all or some keys) and looked up, "
        "they give the entry of that target, else the general entry, and "
        "never one of another target. (documents) Random documents with tags "
        "that use attributes (images, panels, figures, equations, diagrams, "
        "generic tags, tables, code, captions) with target endings, also in "
        "lists, cells, headings, notes, captions and other tags: the "
        "html, xhtml and tex are compared to those of the same document with "
        "the plain attributes a reference model chooses for that target. "
        "Non-trivial: an entry has a general form and a target form "
        "(strings) or the plain documents of two targets differ "
        "(documents).")

TARGETS = ['html', 'xhtml', 'tex', 'css']
KEYS = ['class', 'width', 'id', 'a1', 'data_x', 'Width', 'my.key', 'html']
POS = ['alpha', '3', '3.5', 'media/x.svg', '-15em', 'a.b', '*', 'x:y', '%']


def entry(c, keys):
    """An entry: (key or None, value, target, quote)."""
    target = c.weighted([(3, None)] + [(1, t) for t in TARGETS])
    quote = c.choice(['', '', '"', "'"])
    if c.bool(0.6):
        key = c.choice(keys)
        vals = ['v1', '50%', '1.5', '100', 'x,y', 'a=b', 'url#z', 'p/q.png']
        if quote:
            vals += ['two words', 'a  b', '', 'k=v w']
        value = c.choice(vals)
        if quote == '' and value == '':
            value = 'v'
        if quote and value == '':
            value = 'e e'
        return (key, value, target, quote)
    value = c.choice(POS + (['two words'] if quote else []))
    return (None, value, target, quote)


def full(e):
    k, v, t, q = e
    name = v if k is None else k
    return name + ('.' + t if t else '')


def source(c, entries):
    out = ''
    for n, (k, v, t, q) in enumerate(entries):
        end = '.' + t if t else ''
        if k is None:
            out += q + v + end + q
            sep = c.choice([' ', ' ', ', ', ',', '  ', '\n'])
        else:
            eq = c.choice(['=', '=', ' = ', '= '])
            out += k + end + eq + q + v + q
            sep = c.choice([' ', ' ', '  ', '\n'] +
                           ([', ', ','] if q else []))
        if n < len(entries) - 1:
            out += sep
    return out


def postype(v):
    for t, cls in ((int, IntPositionalValue), (float, FloatPositionalValue)):
        try:
            t(v)
            return cls
        except ValueError:
            pass
    return StringPositionalValue


def model(entries):
    """The entries as a dict: full key -> (name, target, value)."""
    d = {}
    for e in entries:
        k, v, t, q = e
        d[full(e)] = (v if k is None else k, t,
                      postype(v) if k is None else v)
    return d


def chosen(d, target, names=None):
    """The entries for a target as {name: value}."""
    out = {}
    for name, t, v in d.values():
        if t is None and (names is None or name in names):
            out[name] = v
    for name, t, v in d.values():
        if target and t == target and (names is None or name in names):
            out[name] = v
    return out


def strings(c):
    keys = c.shuffle(KEYS)[:c.int(1, 4)]
    entries = c.list(lambda: entry(c, keys), 1, 7, 5)
    d = model(entries)
    # the endings of names have one meaning only: a general entry isn't
    # spelled like the target entry of another one
    names = {v[0] for v in d.values()}
    src = source(c, entries)
    c.note(repr(src))
    attrs = Attributes(src)
    c.eq(list(attrs.items()), [(k, v[2]) for k, v in d.items()],
         'entries of {!r}'.format(src), key='load')
    for t in [None] + TARGETS:
        tt = t if t is None or c.bool() else '.' + t
        got = attrs.filter(target=tt)
        c.eq(dict(got), chosen(d, t), '{!r} for {}'.format(src, t),
             key='filter')
        some = sorted(c.subset(sorted(names | {'other'}), 0.5))
        got = attrs.filter(attrs=some, target=tt, sort_by_attrs=c.bool())
        c.eq(dict(got), chosen(d, t, some), '{!r} for {} and {}'.format(
            src, t, some), key='filter')
        plain = chosen(d, t)
        for n in sorted(names):
            want = plain.get(n)
            c.eq(attrs.get(n, target=tt), want,
                 '{} of {!r} for {}'.format(n, src, t), key='get')
        for cls in (IntPositionalValue, FloatPositionalValue,
                    StringPositionalValue):
            # the first one written for the target, else the first general one
            # (entries of other targets may be used if there isn't any other)
            own = [n for n, tt_, v in d.values() if v is cls and t and tt_ == t]
            gen = [n for n, tt_, v in d.values() if v is cls and tt_ is None]
            got = attrs.filter(attrs=[cls], target=tt)
            if own or gen:
                c.eq(list(got), (own or gen)[:1],
                     '{} of {!r} for {}'.format(cls.__name__, src, t),
                     key='positional')
    c.eq(list(attrs.items()), [(k, v[2]) for k, v in d.items()],
         'entries of {!r} after look ups'.format(src), key='load')
    per = {}
    for n, t, v in d.values():
        per.setdefault(n, set()).add(t)
    if any(None in s and len(s) > 1 for s in per.values()):
        c.nontrivial(src)


# -- documents

TAGS = {
    # tag: ({key: values}, positional, contents)
    'img': ({'width': ['10%', '30%', '50%', '66%', '80%', '100%', '2in'],
             'height': ['20', '3cm'], 'class': ['icon', 'a b']}, [],
            ['fig.svg', 'p.png', 'f.pdf']),
    'panel': ({'width': ['10%', '30%', '50%', '70%', '90%']},
              [], ['@img{p.png}', 'text']),
    'marginfig': ({}, ['-15em', '3cm'], ['@img{p.png}',
                                         '@img{p.png}@caption{C}']),
    'fig': ({}, ['h', 'ht'], ['@img{p.png}']),
    'ffig': ({}, ['b'], ['@img{p.png}@caption{Full}']),
    'generic': ({'class': ['x', 'y z'], 'style': ['color: red', 'top: 2'],
                 'id': ['i1', 'i2'], 'title': ['t']}, ['pos'], ['text']),
    'asy': ({'scale': ['2.0', '3.0', '0.5']}, [], ['dot((1,0));']),
    'table': ({'class': ['t1', 't2 t3']}, [], ['@csv{a,b\n1,2}']),
    'examplebox': ({'class': ['f1', 'f2 f3']}, [], ['text']),
    'eq': ({'color': ['blue', 'red']}, [], ['x', 'y=2']),
}


def tag(c):
    name = c.choice(sorted(TAGS))
    keys, pos, contents = TAGS[name]
    entries = []
    for k in c.subset(sorted(keys), 0.7):
        forms = ([None] if name == 'eq' else
                 c.subset([None, 'html', 'xhtml', 'tex'], 0.5))
        if name == 'panel' and None not in forms:
            forms = forms + [None]
        for f in c.shuffle(forms):
            entries.append((k, c.choice(keys[k]), f, '"'))
    if pos and c.bool():
        # one positional attribute for each target at most
        for f in c.choice([[None], ['tex'], ['html'], ['html', 'tex']]):
            entries.append((None, c.choice(pos), f, c.choice(['', '"'])))
    if name == 'panel' and not any(e[0] == 'width' for e in entries):
        entries.append(('width', '30%', None, ''))
    return (name, entries, c.choice(contents))


def write_tag(t, target=None):
    name, entries, content = t
    if target is not None:
        keep = chosen(model(entries), target)
        # (in the order in which they are written)
        entries = [(k, keep[v if k is None else k]
                    if k is not None else v, None, q)
                   for k, v, tt, q in entries
                   if (v if k is None else k) in keep]
        seen, out = set(), []
        for e in entries:
            n = e[1] if e[0] is None else e[0]
            if n not in seen:
                seen.add(n)
                out.append(e)
        # (entries of other targets are gone)
        entries = [e for e in out]
    text = ' '.join((q + v + ('.' + t if t else '') + q) if k is None else
                    '{}{}={}{}{}'.format(k, '.' + t if t else '', q, v, q)
                    for k, v, t, q in entries)
    return '@' + name + ('[' + text + ']' if text else '') + '{' + content + \
        '}'


# contents, around tags within the text
AROUND = ['@b{%s}', '@list{\n- a %s b\n- c\n}', '@i{x @b{%s}}',
          '@fig{@img{p.png} @caption{N# %s}}', '@examplebox{%s}',
          '@panel[width="30%%"]{%s}', '@sup{%s}', '@sidenote{x %s}',
          '@table{@csv{\na\tb\n%s\tq\n} @caption{T#}}', '@unknown{%s}',
          '@list{\n- a\n  - b %s\n}', '@center{%s}', '@section{S# %s}',
          '@table{@csv{\na\t%s\n1\t2\n}}', '@para{%s}']


def body(tags, around, target=None):
    out = []
    for n, (t, a) in enumerate(zip(tags, around)):
        t = (a or '%s').replace('#', str(n)) % write_tag(t, target).replace(
            '@caption{', '@caption{%d ' % n)
        out.append(t if t.startswith('@section') else
                   'P{} {} Q.'.format(n, t))
    return '\n\n'.join(out) + '\n'


def norm_tex(text, root):
    text = text.replace(str(root), '')

    def opts(m):
        return m.group(1) + ','.join(sorted(m.group(2).split(', '))) + ']'
    return re.sub(r'(\\includegraphics\[)([^]]*)\]', opts, text)


def render(c, root, text):
    p = Project(root)
    p.write('main.dm', header(targets='html, xhtml, tex') + text)
    svg = '<svg xmlns="http://www.w3.org/2000/svg"></svg>'
    p.write('fig.svg', svg)
    p.write('p.png', b'\x89PNG')
    p.write('f.pdf', b'%PDF-1.4')
    p.open()
    b = p.doc.context['body']
    return {'html': rm.dom(rm.parse_html(str(b.html))),
            'xhtml': rm.dom(rm.parse_xml(b.xhtml)),
            'tex': norm_tex(str(b.tex), root)}


def hashes(x):
    """Replace the names of the files of equations and diagrams."""
    if isinstance(x, str):
        return re.sub(r'main_[0-9a-f]{12}', 'main_N', x)
    if isinstance(x, dict):
        return {k: hashes(v) for k, v in x.items()}
    return tuple(hashes(i) for i in x) if isinstance(x, (list, tuple)) else x


def documents(c):
    tags = c.list(lambda: tag(c), 1, 5, 3)
    # svg isn't used for tex
    tags = [(n, e, 'f.pdf' if n == 'img' and t == 'fig.svg' else t)
            for n, e, t in tags]
    around = [c.choice(AROUND) if t[0] in ('generic', 'eq', 'img') and
              c.bool(0.6) else None for t in tags]
    text = body(tags, around)
    c.note(text)
    got = render(c, c.scratch / 'a', text)
    plain = {}
    for t in ('html', 'xhtml', 'tex'):
        plain[t] = body(tags, around, t)
        want = render(c, c.scratch / t, plain[t])[t]
        c.eq(hashes(got[t]), hashes(want), '{} of\n{}\nand of\n{}'.format(
            t, text, plain[t]), key='document')
    if len(set(plain.values())) > 1:
        c.nontrivial(text)


PARTS = [('strings', strings, 12000, 120000),
         ('documents', documents, 300, 4000)]
