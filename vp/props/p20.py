"""P20: builds make complete sets of files, and only below the target root."""
import html
import os
import posixpath
import re
import urllib.parse

from .. import refmodel as rm
from ..book import slug
from ..project import Project, header

RULE = ("Random projects (documents in nested folders, images of the same "
        "names in several folders, named from the folder of the document or "
        "of the project, templates, references, tables of contents, "
        "navigation and links to other targets), built once or twice into "
        "a separate or the default target root. Checked: sources are left as "
        "they were, nothing is written outside of the folders of the targets "
        "and the cache, each document has its file in each target, each "
        "local link and image of the html and xhtml files leads to an "
        "existing file (and anchor) of the output, and images have the bytes "
        "of the source image that the document names. Non-trivial: at least "
        "four links to other files.")
ASSUMPTIONS = ["Links to the source file and to '/' in templates are not "
               "followed."]

FOLDERS = ['', 'd/', 'd/e/', 'f/']
STEMS = ['main', 'a', 'b', 'c', 'x.y', 'long name', 'Uü', 'n#1', '50%25', 'q?a&b']
IMAGES = ['fig.svg', 'pics/fig.svg', 'pics/two.svg', 'fig.png', 'p#1 &?%41.svg',
          'pics/fig.png', 'd&e/f%23.png']
TITLES = ['A title', 'A & B', '<i>', 'Say "x"', "it's", 'a > b', '&amp;']
TEMPLATES = ['default', 'default', 'books/novel',
             'articles/basic', 'reports/basic', 'books/tufte']
HAS = {'books/novel': ['html'], 'articles/basic': ['html', 'tex', 'txt'],
       'reports/basic': ['html', 'tex', 'txt'],
       'books/tufte': ['html', 'tex']}


def tree(root):
    """{path: (bytes, mtime)} of all files below root."""
    out = {}
    for dirpath, dirs, files in os.walk(str(root)):
        for f in files:
            full = os.path.join(dirpath, f)
            with open(full, 'rb') as g:
                out[os.path.relpath(full, str(root))] = (
                    g.read(), os.stat(full).st_mtime)
        if not dirs and not files:
            out[os.path.relpath(dirpath, str(root))] = None
    return out


class Site:
    def __init__(self, c, names=STEMS):
        self.c = c
        self.docs = ['main.dm']
        self.targets = c.choice([['html'], ['html', 'tex'],
                                 ['html', 'xhtml'], ['html', 'txt', 'tex'],
                                 ['xhtml'], ['html', 'tex', 'txt', 'xhtml']])
        self.template = c.choice(TEMPLATES) if c.bool(0.5) else None
        if self.template and not set(self.targets) <= set(
                HAS.get(self.template, ['html', 'tex', 'txt', 'xhtml'])):
            self.template = None
        for _ in range(c.int(0, 4)):
            n = c.choice(FOLDERS) + c.choice(names[1:]) + '.dm'
            if n not in self.docs:
                self.docs.append(n)
        self.images = {}
        for n in c.subset([f + i for f in FOLDERS for i in IMAGES
                           if i.endswith('.png') or
                           'tex' not in self.targets], 0.35):
            self.images[n] = (('<svg xmlns="http://www.w3.org/2000/svg">'
                               '<text>' + n + '</text></svg>\n')
                              if n.endswith('svg') else 'PNG' + n).encode()
        self.subs = {n: [] for n in self.docs}
        self.ids = {}
        for i, n in enumerate(self.docs[1:], 1):
            ok = [p for p in self.docs[:i]
                  if n.startswith(posixpath.dirname(p)) and
                  (posixpath.dirname(p) == '' or
                   n.startswith(posixpath.dirname(p) + '/'))]
            p = c.choice(ok)
            self.subs[p].append(n)
        for n in self.docs:
            self.ids[n] = ['id%d-%d' % (self.docs.index(n), j)
                           for j in range(c.int(0, 3))]
        self.body = {n: self.make(n) for n in self.docs}
        self.titles = {}

    def named(self, doc):
        """[(text, image)]: the ways to name images in a document."""
        out = []
        here = posixpath.dirname(doc)
        for n in sorted(self.images):
            if here and n.startswith(here + '/'):
                out.append((n[len(here) + 1:], n))
            elif here:
                rel = posixpath.relpath(n, here)
                out.append((rel, n))
            # the folder of the document comes first
            if posixpath.join(here, n) not in self.images or not here:
                out.append((n, n))
        return out

    def make(self, n):
        c = self.c
        out = []
        for i in self.ids[n]:
            out.append('@{}[id={}]{{Head {}}}'.format(
                c.choice(['section', 'subsection', 'h4']), i, i))
        named = self.named(n)
        ids = [i for x in self.docs for i in self.ids[x]]
        for _ in range(c.int(0, 5)):
            k = c.weighted([(3, 'img'), (2, 'ref'), (1, 'toc'), (1, 'nav'),
                            (1, 'link'), (1, 'docref'), (1, 'p')])
            if k == 'img' and named:
                t, img = c.choice(named)
                out.append('@img{' + t + '}')
                self.imgs = getattr(self, 'imgs', {})
                self.imgs.setdefault(n, []).append(img)
            elif k == 'ref' and ids:
                out.append('See @ref{' + c.choice(ids) + '}.')
            elif k == 'docref':
                d = c.choice(self.docs)
                if all(ch.isalnum() or ch in './' for ch in d) and \
                        d.isascii():
                    out.append('See @ref{doc:' + slug(d) + '}.')
            elif k == 'toc':
                out.append('@toc{' + c.choice(
                    ['all headings', 'headings', 'all documents']) + '}')
            elif k == 'nav':
                out.append('@' + c.choice(['prev', 'next']) + '{}')
            elif k == 'p':
                out.append('Words.')
        return c.shuffle(out) + ['End.']

    def write(self, p):
        c = self.c
        for n, b in self.images.items():
            p.write(n, b)
        for n in self.docs:
            head = {}
            if n == 'main.dm':
                head['targets'] = ', '.join(self.targets)
                if self.template:
                    head['template'] = self.template
            if self.subs[n]:
                here = posixpath.dirname(n)
                head['include'] = '\n' + '\n'.join(
                    '  ' + (s[len(here) + 1:] if here else s)
                    for s in self.subs[n])
            for k in ('toc', 'next', 'prev', 'txtlink', 'texlink',
                      'srclink'):
                if c.bool(0.15):
                    head[k] = {'toc': '@toc{all headings}'}.get(
                        k, '@' + k + '{}')
            if c.bool(0.15):
                self.titles[n] = head['title'] = c.choice(TITLES)
            text = header(**head) + '\n\n'.join(self.body[n]) + '\n'
            c.note('{}: {!r}'.format(n, text))
            p.write(n, text)
        c.note('images: {}'.format(sorted(self.images)))


LINK = re.compile(r'(?:href|src)\s*=\s*"([^"]*)"')


def links(path):
    with open(path, encoding='utf-8') as f:
        text = f.read()
    return text, [(a, u) for a, u in re.findall(
        r'\b(href|src)\s*=\s*"([^"]*)"', text)]


def ids_of(text, xml):
    return set(re.findall(r'\bid="([^"]*)"', text))


def check_links(c, root, src, target, out_root):
    """Follow the local links of all files of an html or xhtml target."""
    n = 0
    base = os.path.join(root, target)
    for dirpath, _, files in sorted(os.walk(base)):
        for f in sorted(files):
            if not f.endswith('.' + target):
                continue
            path = os.path.join(dirpath, f)
            _, found = links(path)
            rel = os.path.relpath(path, root)
            for attr, u in found:
                u = html.unescape(u)
                if u == '/' or u.startswith(('http:', 'https:', 'mailto:')):
                    continue
                u, _, frag = u.partition('#')
                if u:
                    t = os.path.normpath(os.path.join(
                        dirpath, urllib.parse.unquote(u)))
                else:
                    t = path
                if t.endswith('.dm'):
                    c.check(os.path.isfile(t), lambda: '{} has a link to the '
                            'source {!r}, which is not there'.format(rel, u),
                            key='broken link')
                    continue
                c.check(t.startswith(os.path.normpath(root) + os.sep),
                        lambda: '{} has a link {!r} out of the outputs'.format(
                            rel, u), key='outside link')
                c.check(os.path.isfile(t), lambda: '{} has a link {!r} to '
                        'a file that is not there'.format(rel, u),
                        key='broken link')
                if frag:
                    text, _ = links(t)
                    c.check(urllib.parse.unquote(frag) in ids_of(text, True)
                            or frag in ids_of(text, True),
                            lambda: '{} has a link to {!r}, without this id '
                            'in the file'.format(rel, u + '#' + frag),
                            key='anchor')
                name = t.rpartition('/media/')[2]
                if name.startswith(('css/', 'icons/')):
                    with open(t, 'rb') as f:
                        data = f.read()
                    c.check(data in template_media().get(name, [data]),
                            lambda: '{} is not the file of a template'.format(
                                name), key='template media')
                if t != path:
                    n += 1
    return n


MEDIA = {}


def template_media():
    """{name: [contents]} of the style sheets and icons of the templates."""
    if not MEDIA:
        import disseminate
        top = os.path.join(os.path.dirname(disseminate.__file__), 'templates')
        for dirpath, _, files in os.walk(top):
            name = dirpath.rpartition('/media/')[2]
            if name in ('css', 'icons'):
                for f in files:
                    if not os.path.isfile(os.path.join(dirpath, f)):
                        continue
                    with open(os.path.join(dirpath, f), 'rb') as g:
                        MEDIA.setdefault(name + '/' + f, []).append(g.read())
    return MEDIA


def check_titles(c, site, root):
    for n, title in site.titles.items():
        for t in site.targets:
            if t in ('html', 'xhtml'):
                text, _ = links(os.path.join(root, t, n[:-3] + '.' + t))
                got = re.findall(r'<title>(.*?)</title>', text, re.S)
                c.eq([html.unescape(x) for x in got], [title],
                     'title of the {} of {}'.format(t, n))
                c.check(not re.search('[<>]|&(?!\\w+;|#)', ''.join(got)),
                        lambda: 'the title {!r} is not escaped'.format(got))


def check_images(c, site, p, root):
    """The images of each document, in order."""
    for n in site.docs:
        want = getattr(site, 'imgs', {}).get(n, [])
        for target in site.targets:
            path = os.path.join(root, target, n[:-3] + '.' + target)
            if target in ('html', 'xhtml'):
                text, found = links(path)
                got = [u for u in re.findall(r'<img [^>]*src="([^"]*)"', text)
                       if '/icons/' not in u]
                got = [os.path.join(os.path.dirname(path),
                                    urllib.parse.unquote(html.unescape(u))) for u in got]
            elif target == 'tex':
                with open(path, encoding='utf-8') as f:
                    text = f.read()
                got = re.findall(r'\\includegraphics(?:\[[^]]*\])?'
                                 r'\{\{(.*?)\}(\.\w+)\}', text)
                got = [re.sub(r'^\\detokenize\{(.*)$', r'\1',
                              a).rstrip('}') + b for a, b in got]
                got = [os.path.join(os.path.dirname(path), u) for u in got]
            else:
                continue
            out = []
            for g in got:
                c.check(os.path.isfile(g), lambda: 'the image {} in the {} '
                        'of {} is not there'.format(g, target, n),
                        key='image missing')
                with open(g, 'rb') as f:
                    out.append(f.read())
            c.eq(sorted(out), sorted(site.images[i] for i in want),
                 'contents of the images in the {} of {}'.format(target, n))


def prop(c):
    site = Site(c)
    base = c.scratch / 'w'
    kind = c.choice(['default', 'separate', 'inside'])
    p = Project(base / 'p', target_root={'default': None,
                                         'separate': base / 'out',
                                         'inside': base / 'p/src'}[kind])
    if kind == 'separate':
        (base / 'out').mkdir()
    site.write(p)
    p.write('keep/other.txt', 'other')
    root = str(p.target_root)
    before = tree(base)
    env = p.open()
    times = c.int(1, 2)
    for i in range(times):
        c.eq(env.build(), 'done', 'status of the build')
        if i + 1 < times and c.bool():
            env = p.open()
    after = tree(base)
    targets = list(site.targets)
    # 1. sources
    for f, v in before.items():
        if v is None:
            continue
        c.check(f in after and after[f] == v, lambda: 'the build changed '
                'or removed {}'.format(f), key='source changed')
    # 2. places of new files
    rel = os.path.relpath(root, str(base))
    allowed = tuple(os.path.normpath(os.path.join(rel, t)) + '/'
                    for t in targets + ['.cache'])
    for f in after:
        if f in before:
            continue
        if after[f] is None:
            f += '/'
        c.check(f.startswith(allowed), lambda: 'the build made {}'.format(f),
                key='outside')
    # 3. documents
    for n in site.docs:
        for t in targets:
            c.check(os.path.isfile(os.path.join(root, t, n[:-3] + '.' + t)),
                    lambda: 'the build made no {} for {}'.format(t, n),
                    key='output missing')
    # 4. links
    k = 0
    for t in targets:
        if t in ('html', 'xhtml'):
            k += check_links(c, root, p.src, t, root)
    check_images(c, site, p, root)
    check_titles(c, site, root)
    c.count('links', k)
    if k >= 4 and len(site.docs) > 1:
        c.nontrivial([site.body, site.docs])


def media_folder(c):
    """Two images whose paths only differ in the folder 'media'."""
    p = Project(c.scratch / 'p')
    first, second = c.shuffle(['media/fig.svg', 'fig.svg'])
    for n in (first, second):
        p.write(n, '<svg>' + n + '</svg>')
    p.write('main.dm', header(targets='html') + '@img{' + first +
            '}\n\n@img{' + second + '}\n')
    c.note(first, second)
    c.eq(p.open().build(), 'done', 'status of the build')
    with open(str(p.target_root / 'html/main.html')) as f:
        urls = re.findall(r'<img src="([^"]*svg)"', f.read())
    urls = [u for u in urls if '/icons/' not in u]
    c.eq(len(urls), 2, 'number of images')
    got = [(p.target_root / 'html' / u).read_text() for u in urls]
    c.eq(got, ['<svg>' + n + '</svg>' for n in (first, second)],
         'contents of the two images', key='media-folder')


def known_findings(listed, scratch):
    from ..engine import Case, Violation
    if 'media-folder' in listed:
        try:
            media_folder(Case(prefix=[0] * 10, scratch=scratch.new()))
        except Violation as v:
            yield v.key


PARTS = [('sites', prop, 300, 5000), ('media', media_folder, 4, 4)]
