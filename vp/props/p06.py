"""P06: typographic substitution follows its rules and changes nothing else."""
import re

from .. import gen
from .. import refmodel as rm
from ..gen import Tag
from ..project import one_doc

RULE = ("Random text with quotes, apostrophes, runs of one to three hyphens "
        "and dashes between words, spaces, newlines and punctuation, placed "
        "in paragraphs, formatting and unknown tags, lists, captions and "
        "headings, and in verbatim and code tags and attributes (where it "
        "has to stay); the rendered text is compared, character by "
        "character, to a reference that scans the text once. Non-trivial: "
        "the text has a quote or at least two hyphens in a row.")

ALPHA = ['a', 'b', 'Zq', '9', 'é', '_', ' ', ' ', '\n', '.', ',', '(', ')',
         "'", "'", '"', '"', '--', '---', '-', ' - ', '\u2014', '\u2013',
         ' -- ', ' --- ', '\u00a0', '/', '&', '<']
SPACE = ' \n\t\u00a0'


def raw_text(c, newline=True):
    items = c.list(lambda: c.choice(ALPHA), 1, 14, 7)
    out = 'w'
    for x in items:
        if not newline:
            x = x.replace('\n', ' ')
        # runs of more than three hyphens have no documented meaning, and
        # neither have adjacent dashes
        if x.strip(SPACE)[:1] in ('-', '\u2014', '\u2013') and \
                out.rstrip(SPACE)[-1:] in ('-', '\u2014', '\u2013'):
            x = 'x'
        out += x
    # (blank lines are the subject of P07)
    out = re.sub(r'\s*\n\s*\n\s*', '\n', out)
    return out + 'w'


def is_word(ch):
    return ch != '' and (ch.isalnum() or ch == '_')


def reference(t):
    # dashes
    out = []
    i = 0
    while i < len(t):
        for mark, dash in (('---', '\u2014'), ('--', '\u2013'),
                           ('\u2014', '\u2014'), ('\u2013', '\u2013')):
            if t.startswith(mark, i):
                while out and out[-1] in SPACE:
                    out.pop()
                out.append(dash)
                i += len(mark)
                while i < len(t) and t[i] in SPACE:
                    i += 1
                break
        else:
            out.append(t[i])
            i += 1
    # quotes
    s = ''.join(out)
    res = []
    for i, ch in enumerate(s):
        prev = s[i - 1] if i else ''
        nxt = s[i + 1] if i + 1 < len(s) else ''
        solid_prev = prev != '' and not prev.isspace()
        solid_next = nxt != '' and not nxt.isspace()
        if ch == "'":
            if is_word(prev) and is_word(nxt):
                ch = '\u2019'
            elif not is_word(prev) and solid_next:
                ch = '\u2018'
            elif solid_prev and not is_word(nxt):
                ch = '\u2019'
        elif ch == '"':
            if not is_word(prev) and solid_next:
                ch = '\u201c'
            elif solid_prev and not is_word(nxt):
                ch = '\u201d'
        res.append(ch)
    return ''.join(res)


PLACES = ['p', 'b', 'foo', 'deep', 'box', 'item', 'head', 'caption', 'v',
          'code', 'attr']


def prop(c):
    parts, checks = [], []
    interesting = False
    for k in range(c.int(1, 3)):
        place = c.choice(PLACES)
        t = raw_text(c, place not in ('item', 'head', 'code'))
        interesting |= any(q in t for q in ("'", '"', '--'))
        want = reference(t)
        cls = 'k{}'.format(k)
        if place == 'p':
            # between two tags
            parts.append('@b[class=a]{x}' + t + '@i{y}')
            checks.append((place, cls, 'x' + want + 'y'))
            continue
        if place == 'b':
            parts.append('t @foo[class={}]{{@b{{{}}}}} t'.format(cls, t))
        elif place == 'foo':
            parts.append('@foo[class={}]{{{}}} t'.format(cls, t))
        elif place == 'deep':
            parts.append('t @foo[class={}]{{@i{{@sub{{{}}}}}}} t'.format(
                cls, t))
        elif place == 'box':
            parts.append('@featurebox{{t\n\nt @foo[class={}]{{{}}}}}'.format(
                cls, t))
        elif place == 'item':
            parts.append('@list{{\n- @foo[class={}]{{{}}}\n- b\n}}'.format(
                cls, t))
        elif place == 'head':
            parts.append('@section[nolabel]{{@foo[class={}]{{{}}}}}'.format(
                cls, t))
        elif place == 'caption':
            parts.append('@marginfig{{@caption{{@foo[class={}]{{{}}}}}}}'
                         .format(cls, t))
        elif place == 'v':
            t = t.replace('{', '')
            parts.append('@foo[class={}]{{@v{{{}}}}} t'.format(cls, t))
            want = t
        elif place == 'code':
            parts.append('@foo[class={}]{{@code{{{}}}}} t'.format(cls, t))
            want = t
        elif place == 'attr':
            t = t.replace('"', '').replace('\n', ' ').replace('&', '')
            parts.append('@foo[class="{}" id="{}"]{{x}} t'.format(t, cls))
            want = t
        checks.append((place, cls, want))
    src = 't\n\n' + '\n\n'.join(parts) + '\n\nt'
    c.note(repr(src))
    if interesting:
        c.nontrivial(src)
    p, doc = one_doc(c.scratch, src, targets='txt')
    body = doc.context['body']
    for fmt, tree in (('html', rm.parse_html(str(body.html))),
                      ('xhtml', rm.parse_xml(body.xhtml))):
        texts = [rm.itertext(e) for e in tree.iter('p')]
        for place, cls, want in checks:
            if place == 'p':
                c.check(any(norm(want) == norm(x) for x in texts),
                        lambda: '{} of {!r} lacks the paragraph {!r}: {!r}'
                        .format(fmt, src, want, texts))
                continue
            if place == 'attr':
                got = [e.get('class') for e in tree.iter('span')
                       if e.get('id') == cls]
            else:
                got = [rm.itertext(e) for e in tree.iter('span')
                       if e.get('class') == cls]
            c.eq(got, [want], '{} of {!r} ({})'.format(fmt, src, place))


def norm(t):
    return t.strip('\n ')


def formats(c):
    """tex and txt of a text show the same substitutions."""
    t = raw_text(c)
    src = '@foo{S' + t + 'E} t'
    c.note(repr(src))
    if any(q in t for q in ("'", '"', '--')):
        c.nontrivial(src)
    p, doc = one_doc(c.scratch, src, targets='txt')
    body = doc.context['body']
    want = reference('S' + t + 'E')
    c.check(want in str(body.tex), lambda: 'tex of {!r} lacks {!r}: {!r}'
            .format(src, want, str(body.tex)))
    c.check(want in str(body.default), lambda: 'txt of {!r} lacks {!r}: {!r}'
            .format(src, want, str(body.default)))


PARTS = [('places', prop, 2000, 25000), ('formats', formats, 1000, 10000)]
