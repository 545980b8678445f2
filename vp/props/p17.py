"""P17: an incremental build gives the files of a clean build."""
import os
import re
import shutil
import warnings
import zipfile

from ..book import slug
from ..project import Project, header

RULE = ("Random projects (documents in folders with headings, references, "
        "tables of contents, macros, figures from image files, tables and "
        "code from data files, titles, navigation) and random histories of "
        "edits (texts, titles, numbers, macros, label formats, image and "
        "data files, includes, targets, templates, reverted edits, deleted outputs) "
        "with a build after each edit, in the same session or in a new one "
        "with the same output folder. After each build the status has to be "
        "done and every output file of a clean build into an empty folder "
        "has to be there with the same content. Non-trivial: a file other "
        "than the source of the edit changes in the clean build.")
ASSUMPTIONS = ["Source files change their modification time when edited "
               "(by at least a quarter of a second).",
               "Files that a clean build does not make are not compared."]

warnings.filterwarnings('ignore', 'Duplicate name')     # (of zip files)
NAMES = ['main.dm', 'a.dm', 'b.dm', 'd/a.dm']
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'one', 'two', 'x1', 'é']
#: templates and their targets (with formats of labels, styles, unused tags)
TEMPLATES = {'books/tufte': {'html', 'xhtml', 'tex', 'epub'},
             'books/novel': {'html'}, 'reports/basic': {'html', 'tex', 'txt'}}
SVG = '<svg xmlns="http://www.w3.org/2000/svg"><text>{}</text></svg>\n'


class Model:
    def __init__(self, c, targets):
        self.c = c
        self.n = 0
        self.targets = targets
        self.own = {}           # of documents other than the root
        self.tpl = {}           # templates of documents
        names = NAMES[:c.int(1, 4)]
        self.body = {n: [self.item(n) for _ in range(c.int(1, 4))]
                     for n in names}
        self.title = {n: self.words() if c.bool(0.5) else None
                      for n in names}
        self.subs = {n: [] for n in names}
        self.names = names
        self.attach()
        self.macros = {}
        self.extra = {}
        self.pad = PAD = ' ' * c.weighted([(1, 6000), (1, 200000)])
        self.files = {'pics/f.svg': SVG.format('1'),
                      'data.csv': 'u,v\n1,2\n', 'code.py': 'x = 1\n',
                      'd/g.svg': SVG.format(PAD + '2'),
                      'pics/f.png': 'PNG1', 'd/g.png': PAD + 'PNG2'}
        self.has_macro = c.bool(0.4)
        if self.has_macro:
            self.macros['@mac'] = self.words()

    def attach(self):
        c = self.c
        self.subs = {n: [] for n in self.names}
        live = [self.names[0]]
        for n in self.names[1:]:
            if c.bool(0.15) and len(self.names) > 2:
                continue        # not included
            p = c.choice([x for x in live if '/' not in x])
            self.subs[p].insert(c.int(0, len(self.subs[p])), n)
            live.append(n)
        self.live = live

    def words(self):
        return ' '.join(self.c.choice(WORDS)
                        for _ in range(self.c.int(1, 3)))

    def item(self, n):
        c = self.c
        self.n += 1
        k = c.weighted([(3, 'p'), (4, 'h'), (2, 'ref'), (1.2, 'toc'),
                        (1.2, 'mac'), (1, 'img'), (1, 'fig'), (0.7, 'csv'),
                        (0.7, 'code'), (0.6, 'nav'), (0.5, 'list'),
                        (0.4, 'docref')])
        if k == 'h':
            return ['h', c.choice(['chapter', 'section', 'subsection']),
                    'id%d' % self.n, self.words()]
        if k == 'toc':
            return ['toc', c.choice(['headings', 'all headings', 'documents',
                                     'all documents', 'figures'])]
        if k == 'img':
            return ['img', c.choice(['pics/f.svg', 'd/g.svg'])]
        if k == 'fig':
            return ['fig', c.choice(['pics/f.svg', 'd/g.svg']), self.words(),
                    'fig%d' % self.n]
        if k == 'nav':
            return ['nav', c.choice(['prev', 'next'])]
        if k in ('ref', 'docref'):
            return [k, c.int(0, 5)]
        return [k, self.words()]

    def image(self, name):
        """svg images need a converter for tex"""
        return name.replace('.svg', '.png') \
            if 'tex' in ' '.join([self.targets, *self.own.values()]) else name

    def refs(self):
        """The labels that references may name"""
        return [it[2] if it[0] == 'h' else it[3]
                for n in self.live for it in self.body[n]
                if it[0] in ('h', 'fig')]

    def source(self, n):
        out = []
        refs = self.refs()
        up = '../' if '/' in n else ''
        for it in self.body[n]:
            k = it[0]
            if k == 'p':
                out.append('Text ' + it[1] + '.')
            elif k == 'list':
                out.append('@list{\n- ' + it[1] + '\n- two\n}')
            elif k == 'h':
                out.append('@{}[id={}]{{{}}}'.format(*it[1:]))
            elif k == 'ref':
                if refs:
                    out.append('See @ref{' + refs[it[1] % len(refs)] + '}.')
            elif k == 'docref':
                out.append('See @ref{doc:' + slug(
                    self.live[it[1] % len(self.live)]) + '}.')
            elif k == 'toc':
                out.append('@toc{' + it[1] + '}')
            elif k == 'mac':
                out.append('Macro @mac ' + it[1] if self.has_macro
                           else it[1])
            elif k == 'img':
                out.append('@img{' + up + self.image(it[1]) + '}')
            elif k == 'fig':
                out.append('@fig[id=' + it[3] + ']{@img{' + up +
                           self.image(it[1]) + '} @caption{' + it[2] + '}}')
            elif k == 'csv':
                out.append('@table{@csv{' + up + 'data.csv} @caption{' +
                           it[1] + '}}')
            elif k == 'code':
                out.append('@python{' + up + 'code.py}')
            elif k == 'nav':
                out.append('@' + it[1] + '{}')
        head = {}
        if n == 'main.dm':
            head['targets'] = self.targets
            head.update(self.macros)
            head.update(self.extra)
        elif n in self.own:
            head['targets'] = self.own[n]
        t = self.tpl.get(n)
        # (templates are also those of sub-documents)
        if t and set(re.findall(r'\w+', ' '.join(
                [self.targets, *self.own.values()]))) <= TEMPLATES[t]:
            head['template'] = t
        if self.title[n]:
            head['title'] = self.title[n]
        if self.subs[n]:
            head['include'] = '\n' + '\n'.join('  ' + s
                                               for s in self.subs[n])
        return header(**head) + '\n\n'.join(out) + '\n'

    def write(self, p):
        """Write the files that changed."""
        changed = []
        for n in self.names:
            changed += put(p, n, self.source(n))
        for n, t in self.files.items():
            changed += put(p, n, t)
        return changed

    def snapshot(self):
        import copy
        return copy.deepcopy((self.body, self.title, self.subs, self.live,
                              self.macros, self.extra, self.files,
                              self.targets, self.own, self.tpl))

    def restore(self, s):
        import copy
        (self.body, self.title, self.subs, self.live, self.macros,
         self.extra, self.files, self.targets,
         self.own, self.tpl) = copy.deepcopy(s)

    def edit(self):
        c = self.c
        n = c.choice(self.names)
        b = self.body[n]
        k = c.weighted([(3, 'text'), (2, 'insert'), (2, 'delete'),
                        (1, 'swap'), (2, 'title'), (2, 'macro'),
                        (3, 'file'), (1, 'tree'), (1, 'fmt'),
                        (2, 'template'), (1, 'targets')])
        if k == 'text':
            its = [it for it in b if it[0] in ('p', 'h', 'fig', 'csv', 'mac',
                                               'list')]
            if its:
                it = c.choice(its)
                i = {'h': 3, 'fig': 2}.get(it[0], 1)
                it[i] = self.words()
        elif k == 'insert':
            b.insert(c.int(0, len(b)), self.item(n))
        elif k == 'delete' and b:
            del b[c.int(0, len(b) - 1)]
        elif k == 'swap':
            self.body[n] = c.shuffle(b)
        elif k == 'title':
            self.title[n] = self.words() if c.bool(0.8) else None
        elif k == 'macro' and self.has_macro:
            self.macros['@mac'] = self.words()
        elif k == 'file':
            used = ''.join(self.source(x) for x in self.live)
            used = [f for f in sorted(self.files) if f in used]
            f = c.choice(used if used and c.bool(0.8) else
                         sorted(self.files))
            self.n += 1
            v = str(self.n)
            if f.startswith('d/g'):     # the edit is far from the start
                v = self.pad + v
            self.files[f] = (SVG.format(v) if f.endswith('.svg') else
                             v + 'PNG' if f.endswith('.png') else
                             'u,v\n{},2\n'.format(v) if f.endswith('.csv')
                             else 'x = {}\n'.format(v))
            n = f
        elif k == 'tree':
            self.attach()
        elif k == 'fmt':
            self.extra['label_fmts'] = '\n' + '\n'.join(
                '  {}: "{} @label.tree_number @label.title"'.format(
                    x, self.words())
                for x in c.subset(['heading', 'heading_chapter', 'ref',
                                   'ref_heading', 'caption_figure'], 0.5) +
                ['heading_section'])
        elif k == 'template':
            if c.bool(0.3):
                self.extra['author'] = self.words()
            else:
                self.tpl[n] = c.choice(sorted(TEMPLATES) + [None])
        elif k == 'targets':
            t = c.choice(['html, tex, txt', 'html', 'txt, html',
                          'xhtml, html', 'html, tex', 'tex', 'epub, html'])
            if n == 'main.dm' or 'epub' in t:
                self.targets = t
                n = 'main.dm'
            else:
                self.own[n] = t
        return k, n


def put(p, n, text):
    f = p.src / n
    if f.exists() and f.read_text(encoding='utf-8') == text:
        return []
    p.write(n, text)
    return [n]


def outputs(root, src):
    """{path: content} of the outputs below root."""
    out = {}
    for dirpath, dirs, files in os.walk(str(root)):
        rel = os.path.relpath(dirpath, str(root))
        if rel == '.':
            dirs[:] = [d for d in dirs if d not in ('.cache', src)]
        for f in files:
            path = os.path.normpath(os.path.join(rel, f))
            full = os.path.join(dirpath, f)
            if f.endswith('.epub'):
                with zipfile.ZipFile(full) as z:
                    for i in z.infolist():
                        data = z.read(i)
                        if i.filename.endswith('.opf'):
                            data = b'\n'.join(
                                x for x in data.split(b'\n')
                                if b'dc:identifier' not in x and
                                b'dc:date' not in x and
                                b'dcterms:modified' not in x)
                        out[path + '!' + i.filename] = data
            else:
                with open(full, 'rb') as g:
                    out[path] = g.read()
    return out


def build_loop(env):
    """The loop of the command line."""
    rb = env.create_root_builder()
    status = rb.status
    for _ in range(10000):
        if status not in ('ready', 'building'):
            return rb.status
        status = rb.build(complete=False)
    return 'endless'


def clean(c, p, i):
    """The output of a clean build of the project in its current state."""
    root = c.scratch / 'clean'
    if root.exists():
        shutil.rmtree(str(root))
    root.mkdir()
    shutil.copytree(str(p.src), str(root / 'src'))
    q = Project(root)
    env = q.open()
    status = build_loop(env)
    c.eq(status, 'done', 'status of the clean build %s' % i)
    out = outputs(root, 'src')
    return {k: v.replace(str(root).encode(), b'ROOT') for k, v in out.items()}


def compare(c, p, want, when):
    got = outputs(p.target_root, 'src')
    for path in sorted(want):
        c.check(path in got, lambda: 'the build {} did not make {} (a clean '
                'build does)'.format(when, path), key='missing')
        g = got[path].replace(str(p.target_root).encode(), b'ROOT')
        c.check(g == want[path], lambda: 'the build {} left {} with\n{!r}\n'
                'a clean build makes\n{!r}'.format(
                    when, path, *diff(g, want[path])), key='stale')


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return a[max(0, i - 60):i + 200], b[max(0, i - 60):i + 200]


def prop(c):
    m = Model(c, c.choice(['html', 'html, tex, txt', 'html, xhtml',
                           'epub', 'html, epub, txt']))
    p = Project(c.scratch / 'p')
    p.step = c.choice([1, 0.25])        # (edits within the same second)
    m.write(p)
    for n in m.names:
        c.note('{}: {!r}'.format(n, m.source(n)))
    env = p.open()
    c.eq(env.build(), 'done', 'status of the first build')
    want = clean(c, p, 'at first')
    compare(c, p, want, 'at first')
    snaps = [m.snapshot()]
    nt = False
    for step in range(c.int(1, 4)):
        if c.bool(0.1):
            m.restore(c.choice(snaps))
            k, n = 'revert', ''
        elif c.bool(0.08):
            outs = sorted({x.split('!')[0]
                           for x in outputs(p.target_root, 'src')
                           if x.split('!')[0].rsplit('/')[-1][:1]
                           not in 'fg'})
            n = c.choice(outs)
            os.remove(str(p.target_root / n))
            k = 'remove'
        else:
            k, n = m.edit()
        snaps.append(m.snapshot())
        changed = m.write(p)
        how = c.weighted([(3, 'same'), (2, 'new'), (1, 'loop')])
        if how == 'same' and (k == 'remove' or
                              {'data.csv', 'code.py'} & set(changed)):
            how = 'new'     # (known finding data-session)
        c.note('{}. {} {} build in {} session: {!r}'.format(
            step, k, n, how, [(f, m.source(f)) for f in changed
                              if f.endswith('.dm')]))
        if how == 'same':
            status = p.doc.build()
        else:
            p.env = None
            env = p.open()
            status = env.build() if how == 'new' else build_loop(env)
        when = 'after step {} ({} {}, {} session)'.format(step, k, n, how)
        c.eq(status, 'done', 'status of the build ' + when)
        old, want = want, clean(c, p, when)
        compare(c, p, want, when)
        if any(old.get(f) != want[f] for f in want
               if not f.rsplit('.', 1)[0].endswith(n.rsplit('.', 1)[0])):
            nt = True
    if nt:
        c.nontrivial([m.source(n) for n in m.names] + snaps)


def data_session(c):
    """Edits of data files while a session is open."""
    p = Project(c.scratch / 'p')
    kind = c.choice(['csv', 'code'])
    fn = {'csv': 'data.csv', 'code': 'code.py'}[kind]
    p.write(fn, 'x = 1\n')
    p.write('main.dm', header(targets='html') + {
        'csv': '@table{@csv{data.csv}}\n',
        'code': '@python{code.py}\n'}[kind])
    env = p.open()
    c.eq(env.build(), 'done', 'status of the first build')
    p.write(fn, 'x = 2\n')
    c.note('edit ' + fn)
    p.doc.build()
    want = clean(c, p, 'at the end')
    got = outputs(p.target_root, 'src')
    c.check(got['html/main.html'] == want['html/main.html'],
            'the edit of {} is not in the output of a build in the same '
            'session'.format(fn), key='data-session')


def known_findings(listed, scratch):
    from ..engine import Case, Violation
    if 'data-session' in listed:
        try:
            data_session(Case(prefix=[0] * 10, scratch=scratch.new()))
        except Violation as v:
            yield v.key


PARTS = [('histories', prop, 150, 3000), ('data', data_session, 8, 16)]
