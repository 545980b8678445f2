"""P11: headers are read exactly, and the rest is the body."""
from .. import gen
from ..project import Project
from . import common

RULE = ("Random headers (fence lengths, leading blank lines, indentation, "
        "blank lines, single line and indented block entries, colons, "
        "quotes, hyphens, unicode, tags) followed by random bodies; the "
        "entries of the document have to be the generated ones and the body "
        "has to render as the body alone. Texts that are not headers (not "
        "closed, not at the start, two hyphens) have to stay in the body. "
        "Non-trivial: two entries, one of them with a block, colon or quote.")

KEYS = ['title', 'author', 'short', 'my key', 'k1', 'été', 'x-y', 'K_2',
        'custom', '中', '@mac', 'a.b', 'doc_id']
ALPHA = list('abc xyz 019') + [':', ': ', ',', ';', '#', '-', '--', '@b{x}',
                               '{', '}', '\\', '/', '%', '=', '[', ']', 'é',
                               '中', '|', '*', '---']


def inner(c, quotes="'\""):
    """The text of a value, without blanks at the ends."""
    t = c.text(ALPHA, 1, 8)
    if quotes and c.bool(0.3):
        q = c.choice(quotes)
        t = 'w' + t + q + gen.word(c, 1, 2) + c.choice([q, '']) + 'v'
        if c.bool(0.4):     # a quote at the start or end only
            t = t[::-1] if c.bool(0.3) else q + t[1:]
            t = t.strip()
            if t[-1] == q and t[0] == q:
                t = t + 'w'
    t = t.strip()
    while t.startswith(('-', ':')):
        t = t[1:].strip()
    while '\\:' in t:
        t = t.replace('\\:', '\\')
    return t.strip() or 'w'


def quoted(c):
    """(source, value)"""
    k = c.weighted([(6, 'none'), (1, 's'), (1, 'd'), (0.7, 'dd')])
    if k == 'none':
        t = inner(c)
        return t, t
    if k == 's':
        t = inner(c, '"')
        t = c.choice(['', ' ']) + t + c.choice(['', ' '])
        return "'" + t + "'", t
    if k == 'd':
        t = inner(c, "'")
        t = c.choice(['', ' ']) + t + c.choice(['', ' '])
        return '"' + t + '"', t
    t = inner(c, '')
    return '""' + t + '""', '"' + t + '"'


def entry(c, key, pad):
    k = c.weighted([(5, 'line'), (1, 'empty'), (3, 'block'), (1, 'mixed')])
    sep = c.choice([':', ': ', ' : ', ':  '])
    if k == 'empty':
        return [pad + key + sep], [''], False
    if k == 'line':
        s, v = quoted(c)
        return [pad + key + sep + s], [v], ':' in s or s != v
    lines, values = [], []
    first = ''
    if k == 'mixed':
        first, v = quoted(c)
        values.append(v)
    lines.append(pad + key + sep + first)
    if k == 'block':
        values.append('')
    for _ in range(c.int(1, 3)):
        ind = ' ' * c.int(1, 4)
        s, v = quoted(c)
        if c.bool(0.3):
            s, v = ('sub: ' + s, 'sub: ' + v) if s == v else (s, v)
        lines.append(pad + ind + s)
        values.append(ind + v)
        if c.bool(0.15):
            lines.append('')
            values.append('')
    if k == 'mixed' and c.bool(0.3):
        # a line at the level of the key, with escaped colons
        w = gen.word(c)
        t = c.choice(['', c.choice([' ', '\\:', '\\: ', '\\:/ ']) + gen.word(c)])
        if c.bool(0.3):
            t += '\\:' + gen.word(c)
        t = '\\: z' + t
        lines.append(pad + w + t)
        values.append(w + t.replace('\\:', ':'))
    return lines, values, True


def body_text(c):
    parts = c.list(lambda: c.choice(
        ['text\n', 'a: b\n', '\n', '\n\n', '  indented\n', '@b{bold} ', '---\n',
         'x --- y\n', '@foo[a=1]{z}\n', '- item\n', 'title: no\n', '-----\n',
         'é ']), 0, 6)
    return ''.join(parts)


def render(doc):
    b = doc.context['body']
    return {f: common.squeeze(str(getattr(b, f)))
            for f in ('txt', 'html', 'xhtml', 'tex')}


def load(c, text, name):
    p = Project(c.scratch / name)
    p.write('main.dm', text)
    p.open()
    return p.doc


def prop(c):
    fence = '-' * c.weighted([(5, 3), (1, 4), (1, 5), (1, 8)])
    pad = ' ' * c.weighted([(4, 0), (1, 2), (1, 4)])
    keys = c.shuffle(KEYS)[:c.int(1, 5)]
    lines, want, nt = [], {}, False
    for key in keys:
        ls, v, hard = entry(c, key, pad)
        lines += ls
        nt |= hard
        if len(fence) > 3 and c.bool(0.2):
            lines.append(pad + '  ---')
            v = v + ['  ---']
        while c.bool(0.15):
            lines.append('')
        want[key] = '\n'.join(v).strip('\n')
    lines.insert(0, pad + 'targets: txt')
    if c.bool(0.2):
        lines.insert(0, '')
    lead = c.choice(['', '', '\n', ' \n\n', '\n\n', '  '])
    close = c.choice(['', '', pad])
    body = body_text(c)
    head = lead + fence + c.choice(['', ' ']) + '\n' + '\n'.join(lines) + \
        '\n' + close + fence
    text = head + ('\n' + body if body or c.bool(0.8) else '')
    c.note(repr(text), repr(want))
    if nt and len(keys) >= 2:
        c.nontrivial(text)
    doc = load(c, text, 'a')
    for k, v in want.items():
        c.eq(doc.context.get(k), v, 'entry {!r} of {!r}'.format(k, text))
    ref = load(c, '---\ntargets: txt\n---\n' + body, 'b')
    c.eq(render(doc), render(ref), 'body of {!r}'.format(text))
    extra = set(doc.context) - set(ref.context) - set(want)
    c.check(not extra, lambda: 'unexpected entries {!r} from {!r}'.format(
        extra, text))


def notheader(c):
    lines = ['{}: {}'.format(k, inner(c, '')) for k in
             c.shuffle(['title', 'author', 'custom', 'zz'])[:c.int(1, 3)]]
    lines = [ln.replace('{', '(').replace('}', ')').replace('-', '+')
             .replace('@', 'a') for ln in lines]
    block = '\n'.join(lines)
    k = c.choice(['open', 'late', 'short', 'mismatch'])
    if k == 'open':
        text = '---\n' + block + '\n' + c.choice(['', 'more\n', '--\n'])
    elif k == 'late':
        text = 'text\n---\n' + block + '\n---\nrest'
    elif k == 'short':
        text = '--\n' + block + '\n--\nrest'
    else:
        text = '------\n' + block + '\n---\nrest'
    c.note(k, repr(text))
    c.nontrivial(text)
    doc = load(c, text, 'a')
    for ln in lines:
        key = ln.split(':')[0]
        c.check(key not in doc.context, lambda: 'entry {!r} from {!r}'.format(
            key, text))
    txt = common.squeeze(str(doc.context['body'].txt))
    for ch in '-\u2013\u2014':
        txt = txt.replace(ch, '')
    c.eq(txt, common.squeeze(text.replace('-', '')),
         'body of {!r}'.format(text))


PARTS = [('header', prop, 2500, 30000), ('notheader', notheader, 400, 4000)]
