"""P05: the contents of verbatim and code tags are reproduced literally."""
import re

import lxml.html
import pygments
import pygments.formatters
import pygments.lexers

from .. import gen
from .. import refmodel as rm
from ..project import Project, header, one_doc

RULE = ("Verbatim and code tags under all their names, with random contents "
        "made of markup, tags, quotes, dashes, braces, newlines, spaces and "
        "unicode, placed in paragraphs, other tags (also nested), boxes, "
        "lists and captions, or alone (highlighted code blocks). The text of "
        "the code elements of html and xhtml has to equal the contents "
        "character by character and tex and txt have to hold it verbatim. "
        "Highlighted blocks have the pieces and classes that pygments gives "
        "for the language of the tag. "
        "Non-trivial: the contents have markup, typography or inner "
        "whitespace.")
ASSUMPTIONS = ["Control characters are excluded (they cannot be written in "
               "xml)."]

PIECES = ['@b{x}', '@foo{y @i{z}}', '{q}', '{}', '--', '---', ' -- ', '"a"',
          "'b'", "it's", '  ', '   ', '\n', '\n  ', '\t', '<a>', '</b>', '&',
          '&amp;', '&lt;', '%', '$x$', '\\', '\\\\', '#', '_', '^', '~', '*',
          '- ', '|', '!', '@', '@ ', 'é', '中', '\u2014', '\u201c', '...',
          'word', 'if x:', '[a=b]', '@@', ';', ']]>', '<!--', '{{ x }}',
          '{% y %}', '&&', ':::']
#: the delimiters that tex may use
DELIMS = ['|', '!', '|', '!', '^', 'w', ' x ', '^y', '|!^', '+', '=1', '/:']
INLINE_CODE = ['code', 'Code', 'python', 'html', 'ruby', 'java',
               'javascript', 'dm', 'code[python]', 'code[class=x]']
VERB = ['v', 'verb', 'pre']


def literal(c, inline=False):
    pieces = DELIMS if c.bool(0.15) else PIECES
    t = ''.join(c.list(lambda: c.choice(pieces), 1, 10))
    if c.bool(0.02):
        t += 'long line ' * 60
    # a literal '@' followed by a name may be a macro; see macro()
    t = re.sub(r'@(?=\w)(?!b\{|foo\{|i\{)', '@ ', t)
    t = re.sub(r'\n\s*\n', '\n', t) if inline else t
    if not t.strip():
        t = 'w' + t
    return t


def interesting(t):
    return any(x in t for x in ('@', '--', '"', "'", '<', '&', '  ', '\n',
                                '{', '\\'))


WRAP = [('p', 't {} u', True), ('b', 't @b{{{} v}}', True),
        ('foo', '@foo{{@i{{r {}}} v}} t', True),
        ('box', '@featurebox{{t {} u}}', True),
        ('nested', 't @b{{@foo{{@sub{{w {}}}}}}}', True),
        ('marginfig', '@marginfig{{@caption{{cap {} u}}}}', True),
        ('list', '@list{{\n- one {} two\n- three\n}}', True),
        ('alone', '{}', False)]


def prop(c):
    pars, items = [], []
    for _ in range(c.int(1, 4)):
        where, fmt, inline = c.choice(WRAP)
        kind = c.choice(['code', 'verb'])
        if where == 'alone':
            name = c.choice(VERB + ['verbatim'])
            t = literal(c)
        elif kind == 'code':
            name, t = c.choice(INLINE_CODE), literal(c, True)
        else:
            name, t = c.choice(VERB), literal(c, True)
        if where == 'list':
            t = ' '.join(t.split('\n'))
        if where in ('list', 'marginfig'):
            # verbatim tags stand outside of paragraphs: use code here
            name = c.choice(INLINE_CODE)
        # The first line of a code tag could be the name of a file
        while where == 'marginfig' and any(
                (w, s) == (where, t) for w, _, s in items):
            t += 'x%d' % len(items)    # captions are distinct
        pars.append(fmt.format('@' + name + '{' + t + '}'))
        items.append((where, name, t))
    src = 'first\n\n' + '\n\n'.join(pars) + '\n\nlast'
    c.note(repr(src))
    if any(interesting(t) for _, _, t in items):
        c.nontrivial([(w, n, t) for w, n, t in items])
    p, doc = one_doc(c.scratch, src, targets='txt')
    body = doc.context['body']
    want = [t for _, _, t in items]
    html = rm.parse_html(str(body.html))
    c.eq([rm.itertext(e) for e in html.iter('code')], want,
         'text of the code elements in the html of {!r}'.format(src))
    c.eq([list(e) for e in html.iter('code')], [[] for _ in want],
         'elements in code elements in the html of {!r}'.format(src))
    xhtml = rm.parse_xml(body.xhtml)
    c.eq([rm.itertext(e) for e in xhtml.iter('code')], want,
         'text of the code elements in the xhtml of {!r}'.format(src))
    txt, tex = str(body.default), str(body.tex)
    pos = tpos = 0
    for where, name, t in items:
        i = txt.find(t, pos)
        c.check(i >= 0, lambda: 'txt of {!r} lacks {!r}: {!r}'.format(
            src, t, txt))
        pos = i + len(t)
        if name == 'verbatim':
            form = '\\begin{verbatim}\n' + t.lstrip('\n')
            i = tex.find(form, tpos)
            end = i + len(form)
        else:
            i, end = find_verb(tex, t, tpos)
        c.check(i >= 0, lambda: 'tex of {!r} lacks {!r}: {!r}'.format(
            src, t, tex), key=('verb-delimiter' if all(d in t for d in '|!^')
                               else None))
        tpos = end


def find_verb(tex, text, start):
    """The start and end of the first verb command with the text."""
    i = tex.find('\\verb', start)
    while i >= 0:
        d = tex[i + 5:i + 6]
        end = i + 7 + len(text)
        # (letters, spaces, '*' and the like do not delimit the command; the
        # command ends with the first delimiter)
        if (d and not d.isalpha() and d not in ' \t\n*\\{}' and
                ord(d) < 128 and d not in text and
                tex[i + 6:end] == text + d):
            return i, end
        i = tex.find('\\verb', i + 1)
    return -1, -1


LANGS = ['code[python]', 'code[html]', 'code[ruby]', 'code[java]', 'python',
         'html', 'ruby', 'java', 'javascript', 'dm', 'code[c]', 'code[css]',
         'code[sql]', 'code[notes lua]', 'code[class=x perl]', 'code[json]',
         'code[javascript]']
SNIPPETS = ['def f(x):\n  return x', '<b class="a">x</b>', 'int x = 1;',
            'var x = "s"; // c', 'puts "a" if b', 'select * from t', '# c',
            'p {color: red}', 'local x = nil', '{"a": [1, null]}']


def spans(e):
    """The highlighted pieces: [(class, text)]."""
    out = []
    for x in e.iter('span'):
        if x.get('class') and x.text:
            out.append((x.get('class'), x.text))
    return out


def block(c):
    """Code alone in its paragraph is highlighted, without losing text."""
    name = c.choice(LANGS)
    t = literal(c)
    t = re.sub(r'\n\s*\n', '\n', t).strip('\n').replace('\t', ' ')
    if not t.strip():
        t = 'w'
    if c.bool():
        t += '\n' + c.choice(SNIPPETS)
    src = 'first\n\n@' + name + '{' + t + '}\n\nlast'
    c.note(repr(src))
    if interesting(t):
        c.nontrivial([name, t])
    p, doc = one_doc(c.scratch, src, targets='txt')
    body = doc.context['body']
    for fmt, tree in (('html', rm.parse_html(str(body.html))),
                      ('xhtml', rm.parse_xml(body.xhtml))):
        pre = [rm.itertext(e) for e in tree.iter('pre')]
        c.eq([x.strip('\n') for x in pre], [t],
             'highlighted code in the {} of {!r}'.format(fmt, src))
        lang = re.split(r'[][ ]', name.strip(']'))[-1]
        if lang != 'dm':    # (no lexer: the language is guessed)
            want = lxml.html.fragment_fromstring(pygments.highlight(
                t, pygments.lexers.get_lexer_by_name(lang),
                pygments.formatters.HtmlFormatter()))
            c.eq([spans(e) for e in tree.iter('pre')], [spans(want)],
                 'highlighting in the {} of {!r}'.format(fmt, src),
                 key='highlight')
    c.check(t in str(body.default), 'txt of {!r}'.format(src))
    tex = str(body.tex)
    c.check('\\begin{Verbatim}' in tex and '\\end{Verbatim}' in tex,
            lambda: 'tex of {!r}: {!r}'.format(src, tex))


def from_file(c):
    """A code tag with file names shows the contents of the files."""
    n = c.int(1, 3)
    names = c.shuffle(['a.py', 'sub/b.rb', 'c d.txt', 'é.py'])[:n]
    texts = [literal(c, True).replace('\t', ' ') for _ in names]
    p = Project(c.scratch)
    for f, t in zip(names, texts):
        p.write(f, t)
    src = 't @code{' + '\n'.join(names) + '} u'
    c.note(repr(src), repr(texts))
    c.nontrivial([names, texts])
    p.write('main.dm', header(targets='txt') + src)
    p.open()
    body = p.doc.context['body']
    html = rm.parse_html(str(body.html))
    c.eq([rm.itertext(e) for e in html.iter('code')], ['\n'.join(texts)],
         'html of {!r} with files {!r}'.format(src, texts))


def macro(c):
    """Names of macros in verbatim text are text too."""
    name = c.choice(['alpha', 'myname', 'deg'])
    tag = c.choice(['v', 'code', 'verbatim'])
    t = 'x @' + name + ' y'
    src = 't @' + tag + '{' + t + '} u'
    c.note(repr(src))
    c.nontrivial(src)
    p = Project(c.scratch)
    p.write('main.dm', header(targets='txt', **{'@myname': 'value'}) + src)
    p.open()
    html = rm.parse_html(str(p.doc.context['body'].html))
    c.eq([rm.itertext(e) for e in html.iter('code')], [t],
         'html of {!r}'.format(src), key='verbatim-macro')


def known_findings(listed, scratch):
    from ..engine import Case, Violation
    if 'verbatim-macro' in listed:
        case = Case(prefix=[0] * 10, scratch=scratch.new())
        try:
            macro(case)
        except Violation as v:
            yield v.key


PARTS = [('literal', prop, 2500, 30000), ('block', block, 600, 8000),
         ('file', from_file, 300, 3000), ('macro', macro, 30, 100)]
