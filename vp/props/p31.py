"""P31: every text is made to files or rejected with an error that says why."""
import pathlib
import time

import jinja2
from lxml import etree

from disseminate.tags.tag import Tag
import disseminate.tags  # noqa: F401

from ..project import Project, header

RULE = ("'total': random texts of fragments of the language in any order "
        "(each tag of the package with random attributes and contents, "
        "unbalanced brackets and quotes, header entries with wrong values, "
        "special and control characters). All targets (html, xhtml, tex, "
        "txt) are built within the time limit: the files are there, xhtml is "
        "well-formed, or an error of the package (or of a missing template) "
        "is raised. 'recover': in one session of up to three documents, good "
        "and bad texts are written and built in turn; with all texts good "
        "again the files are the same as those of a fresh project, whatever "
        "was raised before. Non-trivial: three or more tags, one of them "
        "nested; or a rejected text between good ones.")
ASSUMPTIONS = ['Diagrams (asy) are not used.']
SHRINK_RUNS = 150


def tag_names():
    names = set()

    def collect(cls):
        for k in cls.__subclasses__():
            if k.__module__.startswith('disseminate.'):
                names.add(k.__name__.lower())
                names.update(k.aliases or ())
                collect(k)
    collect(Tag)
    return sorted(names - {'asy', 'asydiagram', 'renderedimg', 'substitution'})


NAMES = tag_names()
COMMON = ['b', 'i', 'section', 'chapter', 'caption', 'fig', 'list', 'eq', 'csv',
          'table', 'img', 'ref', 'code', 'v', 'toc', 'symbol', 'panel', 'sup',
          'supsub', 'para', 'author', 'title', 'href', 'link', 'generic']
PLAIN = ['a', 'word', '1', 'x y', '3.5', 'é', '  ', '\n', '\n\n', '\t', '.',
         ',', 's', 'main.dm', 'a.dm']
MARKS = list('@{}[]"\'<>&$#%^_~\\-=|/§:;`')
ODD = ['&&', '---', '--', '- ', '\n- x\n  - y', '\n1. a', '{{', '}}', '{%',
       '{#', '<!--', '\\n', '\\', '@@', '@{', '@x', '@[a]', '{}', '\u00a0',
       '\u2028', '\ufeff', '\U0001f600', '\x0b', '\x0c', '\x00', '\r',
       '&amp;', '<b>', '@alpha', '@1H', 'a,b\n1,2\n', 'a|b', 'file.png',
       'nofile.svg', 'p.png', 'x^2', '\\frac{1}{2}', 'alpha', '@Chi']
ATTRS = ['id=x', 'id=y', 'id="a b"', 'class=y', 'width=50%', 'width=x', 'html',
         'tex', 'nolabel', '=', 'a=', '=b', 'x', '"', '""', 'x="', '[', ']',
         'id=', 'short="s"', 'src=q', '5', '-1', 'color=red', 'href=z',
         'level=2', 'level=x', 'a=b=c', 'width.tex=20%', 'width.html=5',
         'inline', 'all', 'headings', 'abbreviated', 'figures', 'python',
         'java', '{', '}', 'start=3', 'rows', 'noheader', 'short=x', 'é=ü',
         'style=a', 'height=1', 'scale=2', 'bold', 'env=align', 'crop']
HEADS = ['title: x', 'targets: html', 'targets: html, tex, txt, xhtml',
         'targets: nothing', 'label_fmts:\n  ref_section: "a @label.title"',
         'label_fmts: x', 'a', 'include: a.dm', 'include:\n  a.dm',
         'include:\n  a.dm\n  none.dm', 'template: default', 'template: nope',
         'template: books/tufte', 'toc: all', '@x: y', '@x: @b{q}', '@y: @x',
         'relative_links: False', 'base_url: x', 'paragraph', '"', ':',
         'inactive_tags: b', 'label_resets:\n  section: figure', '- x',
         '  x: y', 'label_resets: 3', 'title: @b{t', 'date: 1', 'author: é',
         'process_context: x', 'short: @i{s}', 'mtime: 5', 'body: x',
         'line_offset: a', 'doc_id: q']


class Gen:
    def __init__(self, c):
        self.c = c
        self.tags = 0
        self.nested = False

    def attrs(self):
        c = self.c
        if c.bool(0.5):
            return ''
        return '[' + ' '.join(c.choice(ATTRS)
                              for _ in range(c.int(0, 3))) + ']'

    def atom(self, depth):
        c = self.c
        k = c.weighted([(30, 'plain'), (25, 'tag'), (10, 'mark'), (12, 'odd'),
                        (5, 'braces')])
        if k == 'plain':
            return c.choice(PLAIN)
        if k == 'mark':
            return c.choice(MARKS)
        if k == 'odd':
            return c.choice(ODD)
        if k == 'braces':
            return '{' + self.seq(2, depth + 1) + '}'
        self.tags += 1
        self.nested |= depth > 0
        name = c.choice(COMMON) if c.bool(0.6) else c.choice(NAMES)
        return '@' + name + self.attrs() + (
            '{' + self.seq(3, depth + 1) + '}' if c.bool(0.85) else '')

    def seq(self, n, depth=0):
        if depth > 5:
            return 'z'
        return ''.join(self.atom(depth) for _ in range(self.c.int(0, n)))

    def head(self):
        c = self.c
        if c.bool(0.5):
            return header(targets='html, tex, txt, xhtml')
        return '---\n' + '\n'.join(c.choice(HEADS) for _ in range(
            c.int(0, 4))) + '\n---\n'

    def text(self):
        return self.head() + self.seq(self.c.choice([3, 6, 12]))


def clean(e):
    """An error of the package, for the author of the text."""
    return type(e).__module__.split('.')[0] == 'disseminate' or \
        isinstance(e, jinja2.TemplateNotFound)


def files(p):
    return {str(f.relative_to(p.target_root)): f.read_bytes()
            for t in ('html', 'xhtml', 'tex', 'txt')
            for f in (p.target_root / t).rglob('*') if f.is_file()
            and 'media' not in f.parts}


def build(c, env):
    """Build until it is done, like Environment.build."""
    env.root_document.load()
    root = env.create_root_builder()
    start = time.time()
    status = root.build(complete=False)
    while status in ('ready', 'building'):
        if time.time() - start > 15:
            titles = [x.title for d in env.root_document.documents_list(
                only_subdocuments=False, recursive=True)
                for x in d.context['label_manager'].labels.values()]
            if any('@' in str(t) for t in titles):
                c.fail('The literal text of a title is parsed for tags, and '
                       'the build never ends', key='title-literal')
        time.sleep(0.003)
        status = root.build(complete=False)
    return status


def total(c):
    p = Project(c.scratch)
    g = Gen(c)
    text = g.text()
    p.write('main.dm', text)
    p.write('a.dm', header(targets='html, tex, txt, xhtml') +
            '@section[id=s]{x}\n')
    p.write('p.png', b'\x89PNG\r\n\x1a\n\x00\xff')
    c.note(text)
    try:
        env = p.open()
        env.root_document
        status = build(c, env)
    except Exception as e:
        if not clean(e):
            raise
        c.count('rejected: ' + type(e).__name__)
        c.check(str(e).strip(), 'an error without a text: {!r}'.format(e))
        status = None
    if status is not None:
        c.count('built')
        c.eq(status, 'done', 'status of the build')
        for d in p.docs():
            for target, f in d.targets.items():
                f = pathlib.Path(str(f))
                c.check(f.is_file(), 'the file {} is missing'.format(f))
                if target == '.xhtml':
                    try:
                        etree.fromstring(f.read_bytes())
                    except etree.XMLSyntaxError as e:
                        c.fail('{} is not well-formed: {}\n{}'.format(
                            f.name, e, f.read_text()), key='xml')
    if g.tags > 2 and g.nested:
        c.nontrivial(text)


GOOD = ['Text w{0} @b{{w{0}b}}.', '@section[id=s{1}]{{Part w{0}}}\ntext',
        '@chapter[id=c{1}]{{Chap w{0}}}', '@list{{\n- w{0}\n- x}}',
        'see @ref{{s{2}}}', '@fig{{@caption[id=f{1}]{{w{0}}}}}',
        '@v{{w{0}}} and @code{{x{0}}}', '@toc{{all headings}}',
        '@table{{@csv{{a,b\nw{0},2}}}}', '@next -- @prev', '@alpha w{0}',
        '@toc{{all documents}}', '@mac w{0}']
BAD = ['@b{', '@section{x', '@ref{none}', '@img{none.png}', '@csv{@b{}',
       '@eq{@epublink}', '@symbol{@b{x}}', 'a\x00b', '@supsub{@b{x}}',
       '@section[id=s0]{x}@section[id=s0]{y}', '@html{@x', '@table{',
       '@asdf{', '@ref{@b{x}}', '@caption[id=s1]{']
BADHEADS = ['template: nope', 'targets: nothing', 'include: main.dm',
            'label_fmts: x', 'toc: x', '"', 'title: @b{x']


def recover(c):
    n = c.int(1, 3)
    names = ['main.dm', 'a.dm', 'sub/b.dm'][:n]
    serial = [0]

    def text(i, bad):
        parts = []
        for _ in range(c.int(1, 4)):
            serial[0] += 1
            parts.append(c.choice(GOOD).format(serial[0], i,
                                               c.int(0, n - 1)))
        head = 'targets: ' + c.choice(['html, tex, txt, xhtml', 'html',
                                       'html, txt', 'txt, xhtml'])
        if c.bool(0.4):
            head += '\ntitle: T{}'.format(serial[0])
        if c.bool(0.3):
            head += '\n@mac: m{}'.format(serial[0])
        if i == 0 and n > 1:
            head += '\ninclude:' + ''.join('\n  ' + x for x in names[1:])
        if bad:
            if c.bool(0.25):
                head += '\n' + c.choice(BADHEADS)
            else:
                parts.insert(c.int(0, len(parts)), c.choice(BAD))
        return '---\n' + head + '\n---\n' + '\n\n'.join(parts) + '\n'

    def label(i):
        # the labels which references may use
        return '@section[id=s{}]{{S}}\n\n'.format(i)

    root = pathlib.Path(str(c.scratch))
    p = Project(root / 'one')
    now = {}
    is_bad = {}

    def write(i, bad):
        t = text(i, bad)
        if not bad and '@section[id=s{}]'.format(i) not in t:
            head, body = t.rsplit('---\n', 1)
            t = head + '---\n' + label(i) + body
        while not bad and t.count('[id=s{}]'.format(i)) > 1:
            t = t.replace('[id=s{}]'.format(i), '', 1)
        for x in 'cf':
            while t.count('[id={}{}]'.format(x, i)) > 1:
                t = t.replace('[id={}{}]'.format(x, i), '', 1)
        now[names[i]] = t
        is_bad[i] = bad
        p.write(names[i], t)
        c.note('--- write {}\n{}'.format(names[i], t))

    def go():
        try:
            if p.env is None:
                p.open()
            status = build(c, p.env)
            c.eq(status, 'done', 'status of the build')
            return True
        except Exception as e:
            if not clean(e):
                raise
            c.count('rejected: ' + type(e).__name__)
            c.note('raised {!r}'.format(e))
            return False

    for i in range(n):
        write(i, False)
    was_good = go()
    c.check(was_good, 'the good texts are rejected', key='rejected')
    rejected = False
    for _ in range(c.int(1, 4)):
        for i in c.subset(range(n), 0.5) or [c.int(0, n - 1)]:
            write(i, c.bool(0.6))
        if not go():
            rejected = True
            if c.bool(0.5):
                c.check(not go(), 'a rejected text is accepted when it is '
                        'built again', key='forgotten')
    for i in range(n):
        if is_bad[i] or c.bool(0.2):
            write(i, False)
    ok = go()
    c.check(ok, 'the repaired texts are rejected', key='outlasts')
    q = Project(root / 'two')
    for name, t in now.items():
        q.write(name, t)
    build(c, q.open())
    want = files(q)
    got = files(p)
    for f in sorted(want):
        c.check(f in got, 'the file {} is missing'.format(f))
        c.eq(got[f], want[f], 'contents of {} (after errors, and in a fresh '
             'project)'.format(f))
    if rejected:
        c.nontrivial(sorted(now.items()))


def title_literal(c):
    p = Project(c.scratch)
    p.write('main.dm', header(targets='html') + '@section{Use @v{@b{x}}}\n')
    c.note('html of: @section{Use @v{@b{x}}}')
    build(c, p.open())
    html = (p.target_root / 'html/main.html').read_text()
    c.check('Use @b{x}' in html, "The heading '@section{Use @v{@b{x}}}' does "
            "not show 'Use @b{x}'", key='title-literal')
    c.nontrivial()


def known_findings(listed, scratch):
    from ..engine import Case, Violation
    if 'title-literal' in listed:
        try:
            title_literal(Case(prefix=[0] * 10, scratch=scratch.new()))
        except Violation as v:
            yield v.key


PARTS = [('total', total, 1000, 30000), ('recover', recover, 150, 4000),
         ('title', title_literal, 2, 2)]
