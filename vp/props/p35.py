"""P35: pdf files hold all of the text of the document, in order."""
import base64
import re
import subprocess

from disseminate.builders.exceptions import BuildError

from ..project import Project, header

RULE = ("Random documents of one to three files (headings at all levels, "
        "paragraphs with formatting, nested and ordered lists, feature boxes, "
        "code, verbatim text, equations, symbols, tables of data, figures "
        "with panels, captions, references, tables of contents, margin "
        "figures and side notes, macros) for each template of the package "
        "with tex, made into pdf with the real pdflatex. The build has to be "
        "done, and the text of the pdf (by pdftotext) has to hold each unique "
        "word of the source: those of the body in order, those of floating "
        "elements anywhere. Non-trivial: a nested list or a float, with three "
        "other kinds of elements.")
ASSUMPTIONS = ['pdflatex, its packages and pdftotext are right.',
               'Chapters are not used in articles (LaTeX has none there).']
SHRINK_RUNS = 80

PNG = base64.b64decode(
    'iVBORw0KGgoAAAANSUhEUgAAAAoAAAAKCAIAAAACUFjqAAAAEklEQVR4nGP4z8CAB+GTG8HSALfK'
    'Y51PTJvXAAAAAElFTkSuQmCC')
IMAGES = ['p_i.png', 'a b.png', 'x.y.png']
TEMPLATES = ['default', 'articles/basic', 'reports/basic', 'books/tufte']
BULLETS = r'[•–∗·]'
NUMBERS = r'(\d+\.|\([a-z]\)|[ivx]+\.|[A-Z]\.)'
HEADINGS = ['part', 'chapter', 'section', 'subsection', 'subsubsection',
            'h2', 'h3', 'h4', 'h5', 'para', 'h6']


class Words:
    """Unique words; those of the body and those that may float."""

    def __init__(self, c):
        self.c = c
        self.n = 0
        self.body = []
        self.floating = []
        self.marked = []        # at the start of items
        self.repeat = set()     # shown by references too
        self.to = self.body

    def __call__(self):
        # (digits keep LaTeX from breaking them)
        self.n += 1
        w = 'k{}z'.format(self.n)
        self.to.append(w)
        return w

    def floats(self, fn):
        old, self.to = self.to, self.floating
        try:
            return fn()
        finally:
            self.to = old


def inline(c, w, depth=2, verb=False, moving=False):
    """Text; LaTeX takes less in headings and captions ('moving')."""
    out = []
    for _ in range(c.int(1, 4)):
        k = c.weighted([(5, 'w'), (3 if depth else 0, 'fmt'), (0 if moving else 0.6, 'eq'),
                        (0.6 if verb else 0, 'verb'), (0.6, 'sym'), (0.5, 'macro'),
                        (0.5, 'special')])
        if k == 'w':
            out.append(w())
        elif k == 'fmt':
            t = c.choice(['b', 'i', 'bold', 'textit', 'italics', 'strong',
                          'sup', 'sub'])
            if t in ('sup', 'sub'):
                out.append('x@{}{{{}}}'.format(t, w()))
            else:
                out.append('@{}{{{}}}'.format(t, inline(c, w, depth - 1,
                                                  moving=moving)))
        elif k == 'eq':
            out.append(c.choice(['@eq{{\\text{{{}}}}}',
                                 '@term{{\\text{{{}}}}}',
                                 '@eq[bold]{{\\text{{{}}}}}',
                                 '@eq[color=blue]{{\\text{{{}}}}}']
                                ).format(w()))
        elif k == 'verb':
            out.append(c.choice(['@verb{{{}}}', '@v{{{}_$#%^&~|}}',
                                 '@verbatim{{{} \\x}}']).format(w()))
        elif k == 'sym':
            out.append(c.choice(['@deg', '@symbol{alpha}', '@symbol{Omega}']))
        elif k == 'macro':
            out.append(c.choice(['@1H', '@13C', '@H2O', '@cf', '@Alpha',
                                 '@omicron', '@Chi', '@pi', '@degC',
                                 '@times']))
        else:
            out.append(c.choice(['--', '---', '"q"', "'s'", '\\%', '\\&',
                                 '\\$5', 'é', 'ß', '~',
                                 '\\S{}']))
    return ' '.join(out)


def items(c, w, marks, depth=0):
    out = []
    for _ in range(c.int(1, 3)):
        first = w()
        if depth < 4:
            # (deeper ones have no marks in LaTeX)
            w.marked.append((first, marks))
        out.append('  ' * depth + '- ' + first + ' ' +
                   inline(c, w, 1))
        if depth < 4 and c.bool(0.35):
            out += items(c, w, marks, depth + 1)
    return out


class Doc:
    def __init__(self, c, w, template, name):
        self.c, self.w = c, w
        self.article = template.startswith('articles')
        self.tufte = template == 'books/tufte'
        self.name = name
        self.images = IMAGES
        self.kinds = set()
        self.nested = False
        self.ids = []
        self.n = 0

    def new_id(self, pre):
        if self.c.bool(0.5):
            return ''
        self.n += 1
        i = '{}{}{}'.format(pre, self.name[0], self.n)
        self.ids.append(i)
        return i

    def unit(self, boxed=False):
        c, w = self.c, self.w
        k = c.weighted([(4, 'p'), (2 if not boxed else 0, 'h'), (2, 'list'),
                        (1 if not boxed else 0, 'box'), (1, 'code'),
                        (1, 'eqn'), (1.5 if not boxed else 0, 'float'),
                        (0.5, 'ref'), (0.5, 'img'),
                        (0.4 if not boxed else 0, 'note')])
        self.kinds.add(k)
        if k == 'p':
            return '\n'.join(inline(c, w, verb=True) for _ in range(c.int(1, 3)))
        if k == 'h':
            t = c.choice([h for h in HEADINGS if not self.article or
                          h not in ('chapter', 'h2')])
            # (templates turn off some levels)
            i = self.new_id('h') if t in ('section', 'h3', 'subsection',
                                          'h4') else ''
            a = '[id=' + i + ']' if i else c.choice(['', '', '[nolabel]']
                                                    if t not in ('para', 'h6')
                                                    else [''])
            n = len(w.to)
            text = inline(c, w, 1, moving=True) if c.bool(0.3) else w()
            if i:
                w.repeat.update(w.to[n:])
            return '@{}{}{{{}}}'.format(t, a, text)
        if k == 'list':
            t = c.choice(['list', 'orderedlist', 'outline'])
            lines = items(c, w, BULLETS if t == 'list' else NUMBERS)
            self.nested |= any(x.startswith('  ') for x in lines)
            return '@{}{{\n{}\n}}'.format(t, '\n'.join(lines))
        if k == 'box':
            return '@{}{{\n{}\n}}'.format(
                c.choice(['featurebox', 'examplebox', 'problembox']),
                '\n\n'.join(self.unit(True) for _ in range(c.int(1, 3))))
        if k == 'code':
            t = c.choice(['code', 'python', 'html', 'ruby', 'java',
                          'javascript'])
            lines = c.choice([
                ['{} = "x_y" # $&%^~'], ['{} = 1', '  if {}: pass'],
                ['def {}(a):', '    return {1: 2}'],
                ['{} <b>&amp;</b> \\t'], ['x', '', '{}']])
            return '@{}{{\n{}\n}}'.format(t, '\n'.join(
                x.replace('{}', w()) if '{}' in x else x for x in lines))
        if k == 'eqn':
            a = c.choice(['env=align*', 'env=alignat*', 'env=align* color=red',
                          'env=align* bold'])
            if a == 'env=alignat*':
                a = 'env=align*'
            # (a group can't hold an alignment)
            return '@eq[{}]{{\n{}\n}}'.format(
                a, 'a & = \\text{' + w() + '}'
                if a == 'env=align*' and c.bool() else
                '\\frac{1}{2} \\text{' + w() + '}')
        if k == 'float':
            return w.floats(self.float)
        if k == 'ref':
            if not self.ids:
                return w()
            return w() + ' @ref{' + c.choice(self.ids) + '} ' + w()
        if k == 'note':
            return w() + ' @{}{{{}}} '.format(
                c.choice(['sidenote', 'marginnote']),
                w.floats(w) if self.tufte else w()) + w()
        return w() + ' @img{}{{{}}} '.format(
            c.choice(['', '[width=10%]', '[width=50.5%]']),
            c.choice(self.images)) + w()

    def data(self):
        c, w = self.c, self.w
        n = c.int(1, 3)

        def cell():
            k = c.weighted([(5, 'w'), (1, 'b'), (1, 'n')])
            return (w() if k == 'w' else '@b{' + w() + '}' if k == 'b'
                    else c.choice(['1', '2.5']))
        rows = [[cell() for _ in range(n)] for _ in range(c.int(2, 3))]
        sep, t = c.choice([(',', 'csv'), ('\t', 'tsv')])
        a = '[noheader]' if c.bool(0.25) else ''
        return '@{}{}{{\n{}\n}}'.format(t, a, '\n'.join(sep.join(r)
                                                        for r in rows))

    def caption(self):
        i = self.new_id('c')
        return '@caption{{{}}}'.format(inline(self.c, self.w, 1,
                                             moving=True)), i

    def float(self):
        c, w = self.c, self.w
        cap, i = self.caption()
        a = '[id=' + i + ']' if i else ''
        if c.bool(0.4):
            t = c.choice(['table', 'tbl', 'margintable', 'fulltable',
                          'ftbl'])
            return '@{}{}{{\n{}\n{}\n}}'.format(t, a, self.data(), cap)
        t = c.choice(['fig', 'figure', 'marginfig', 'ffig', 'fullfigure'])
        if c.bool(0.4):
            inner = '\n'.join('@panel[width={}]{{@img{{{}}} {}}}'.format(
                c.choice(['30%', '45%']), c.choice(self.images), w()) for _ in range(c.int(1, 2)))
        else:
            inner = '@img{' + c.choice(self.images) + '}'
        return '@{}{}{{\n{}\n{}\n}}'.format(t, a, inner, cap)

    def body(self):
        return '\n\n'.join(self.unit() for _ in range(self.c.int(4, 14)))


def squeeze(t):
    return re.sub(r'\s+', '', t).lower()


def prop(c):
    template = c.choice(TEMPLATES)
    p = Project(c.scratch)
    names = ['main.dm', 'a.dm', 'd/b.dm'][:c.weighted(
        [(6, 1), (2, 2), (1, 3)])]
    kinds = set()
    nested = False
    expected = []
    texts = []
    for n in names:
        w = Words(c)
        w.n = 1000 * len(expected)
        d = Doc(c, w, template, n)
        text = d.body()
        head = {'targets': c.choice(['pdf', 'pdf', 'html, pdf', 'tex, pdf'])}
        if template != 'default':
            head['template'] = template
        if c.bool(0.3):
            head['title'] = c.choice(['A title', 'On x & y', '50%', 'a_b',
                                      'é ß']) if False else 'A title'
        if c.bool(0.3):
            head['author'] = 'Some One'
        if n == 'main.dm' and len(names) > 1:
            head['include'] = '\n' + '\n'.join('  ' + x for x in names[1:])
        p.write(n, header(**head) + text)
        for i in IMAGES:
            p.write(('d/' if n.startswith('d/') else '') + i, PNG)
        c.note('--- ' + n + '\n' + header(**head) + text)
        texts.append(text)
        kinds |= d.kinds
        nested |= d.nested
        expected.append((n, w))
    env = p.open()
    try:
        status = env.build()
    except BuildError as e:
        logs = sorted((p.root / '.cache/pdf').rglob('*.log'))
        err = [re.search(r'^!.*(\n.*){0,8}', x.read_text(errors='replace'),
                         re.M) for x in logs]
        c.fail('The build fails: {}\n{}'.format(str(e)[-200:], '\n'.join(
            x.group() for x in err if x)), key='fails')
    c.eq(status, 'done', 'status of the build')
    by_name = {str(d.src_filepath.subpath): d for d in p.docs()}
    for n, w in expected:
        f = by_name[n].targets['.pdf']
        got = subprocess.run(['pdftotext', '-raw', str(f), '-'],
                             stdout=subprocess.PIPE).stdout.decode()
        text = squeeze(got)
        found = re.findall(r'k\d+z', text)
        first = {}
        for i, x in enumerate(found):
            first.setdefault(x, i)
        for x in w.body + w.floating:
            c.check(x in first, 'the pdf of {} misses {!r}; its text:\n{}'
                    .format(n, x, got), key='missing')
        found = [x for j, x in enumerate(found) if x not in w.repeat or
                 first[x] == j]
        order = [x for x in found if x in set(w.body)]
        c.eq(order, w.body, 'order of the words in the pdf of ' + n)
        c.eq(sorted(x for x in found if x in set(w.floating)),
             sorted(w.floating), 'words of floats in the pdf of ' + n)
        if w.marked:
            got = subprocess.run(['pdftotext', '-layout', str(f), '-'],
                                 stdout=subprocess.PIPE).stdout.decode()
            for x, mark in w.marked:
                c.check(re.search(mark + r'\s+' + x, got), 'no mark of the '
                        'item {} in the pdf of {}:\n{}'.format(x, n, got),
                        key='mark')
    if (nested or 'float' in kinds) and len(kinds) > 3:
        c.nontrivial(texts)


def section_sign(c):
    p = Project(c.scratch)
    p.write('main.dm', header(targets='pdf') + 'See § 2.\n')
    c.note('pdf of: See § 2.')
    env = p.open()
    try:
        env.build()
    except BuildError:
        c.fail("The pdf of 'See § 2.' can't be built", key='section-sign')
    c.nontrivial()


def known_findings(listed, scratch):
    from ..engine import Case, Violation
    if 'section-sign' in listed:
        try:
            section_sign(Case(prefix=[0] * 10, scratch=scratch.new()))
        except Violation as v:
            yield v.key


PARTS = [('pdf', prop, 40, 400), ('section', section_sign, 2, 2)]
