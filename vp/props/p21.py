"""P21: epub files are complete and consistent packages."""
import html
import os
import posixpath
import re
import urllib.parse
import warnings
import xml.etree.ElementTree as ET
import zipfile

from ..engine import Reject, Violation
from ..project import Project, header
from .p20 import Site

RULE = ("Random projects (as in P20, with titles of any characters, file "
        "names of any kind, the epub target alone or with others, documents "
        "with targets of their own, and "
        "layout entries), built one or more times with edits in between. "
        "Checked: the mimetype comes first and is not compressed; the "
        "container names the package; the package and all documents are "
        "well formed; the manifest lists exactly the files of the epub, with "
        "unique and valid ids and the media types of the files; the reading "
        "order has the table of contents and then each document, once, in "
        "the order of the project; title and layout are those of the header; "
        "the table of contents links to existing files and ids; links and "
        "images of the documents are in the package, and images have the "
        "bytes of their source. Non-trivial: at least two documents, and an "
        "image or an edit.")
ASSUMPTIONS = ["Documents are not named toc or title.",
               "The date of the header is not used.",
               "Xhtml is a target of all documents or of none (see the "
               "known finding; checked in the part 'mixed')."]
warnings.filterwarnings('ignore', 'Duplicate name')     # (of zip files)
OPF = '{http://www.idpf.org/2007/opf}'
DC = '{http://purl.org/dc/elements/1.1/}'
XHTML = '{http://www.w3.org/1999/xhtml}'
TYPES = {'.xhtml': 'application/xhtml+xml', '.css': 'text/css',
         '.svg': 'image/svg+xml'}
NAMES = ['main', 'a', 'b', '1 a', '1-a', '1_a', 'x.y', 'Uü', '2', '_c',
         'n#1', 'q?&', '50%25', '-d', 'A', 'toc']
TITLES = ['A title', 'A & B', '<i>', 'Say "x"', "it's", 'ü é', 'a > b', '1',
          '&amp;', 'C--D']


class Book(Site):
    def __init__(self, c):
        super().__init__(c, names=NAMES)
        self.docs_ok()
        self.targets = c.choice([['epub'], ['epub'], ['epub', 'html'],
                                 ['epub', 'xhtml'], ['epub', 'tex', 'html']])
        self.template = c.choice(['default', 'books/tufte']) \
            if c.bool(0.3) else None
        if 'tex' in self.targets:
            # (svg images need a converter for tex)
            self.targets = ['epub', 'html']
        self.images = {n: b for n, b in self.images.items()
                       if n.endswith('.svg')}
        self.imgs = {}
        self.body = {n: self.make(n) for n in self.docs}
        self.title = {n: c.choice(TITLES) if c.bool(0.4) else None
                      for n in self.docs}
        # Documents may have targets of their own
        own = [['xhtml'], ['html', 'xhtml']] if 'xhtml' in self.targets \
            else [['html']] + ([['txt'], ['html', 'txt']]
                               if not self.template else [])
        self.own = {n: c.choice(own) for n in self.docs
                    if n != 'main.dm' and c.bool(0.15)}
        self.layout = {k: c.choice(v) for k, v in
                       [('layout', ['fixed', 'reflowable']),
                        ('orientation', ['landscape', 'portrait', 'auto']),
                        ('spread', ['none', 'both'])] if c.bool(0.2)}

    def docs_ok(self):
        """A document with the name of the table of contents."""
        if 'toc.dm' in self.docs:
            i = self.docs.index('toc.dm')
            new = 'toc2.dm'
            self.docs[i] = new
            self.subs[new] = self.subs.pop('toc.dm')
            self.ids[new] = self.ids.pop('toc.dm')
            for v in self.subs.values():
                v[:] = [new if x == 'toc.dm' else x for x in v]

    def source(self, n):
        head = {}
        if n == 'main.dm':
            head['targets'] = ', '.join(self.targets)
            if self.template:
                head['template'] = self.template
            if self.layout:
                head['epub'] = ''.join('\n  {}: {}'.format(k, v) for k, v in
                                       self.layout.items())
        elif n in self.own:
            head['targets'] = ', '.join(self.own[n])
        if self.title[n]:
            head['title'] = self.title[n]
        if self.subs[n]:
            here = posixpath.dirname(n)
            head['include'] = '\n' + '\n'.join(
                '  ' + (s[len(here) + 1:] if here else s)
                for s in self.subs[n])
        return header(**head) + '\n\n'.join(self.body[n]) + '\n'

    def write(self, p):
        for n, b in self.images.items():
            if not (p.src / n).exists() or (p.src / n).read_bytes() != b:
                p.write(n, b)
        for n in self.docs:
            text = self.source(n)
            f = p.src / n
            if not f.exists() or f.read_text(encoding='utf-8') != text:
                self.c.note('{}: {!r}'.format(n, text))
                p.write(n, text)

    def edit(self):
        c = self.c
        n = c.choice(self.docs)
        k = c.choice(['body', 'body', 'title', 'image', 'layout'])
        if k == 'body':
            self.imgs.pop(n, None)
            self.body[n] = self.make(n)
        elif k == 'title':
            self.title[n] = c.choice(TITLES)
        elif k == 'image' and self.images:
            i = c.choice(sorted(self.images))
            self.images[i] += b' '
        elif k == 'layout':
            self.layout['layout'] = c.choice(['fixed', 'reflowable'])
        return k + ' ' + n

    def order(self):
        out = []

        def visit(n):
            out.append(n)
            for s in self.subs[n]:
                visit(s)
        visit('main.dm')
        return out


def parse(c, name, data):
    text = data.decode('utf-8')
    text = re.sub(r'<!DOCTYPE[^>]*>', '', text, count=1)
    # (named entities of html aren't declared in xml)
    text = re.sub(r'&(?!amp;|lt;|gt;|quot;|apos;|#)(\w+);',
                  lambda m: html.unescape(m.group()), text)
    try:
        return ET.fromstring(text.encode('utf-8'))
    except ET.ParseError as e:
        c.fail('{} is not well formed: {}\n{}'.format(name, e, text[:1500]),
               key='malformed')


def check_epub(c, site, p, when):
    path = p.target_root / 'epub/main.epub'
    c.check(path.is_file(), 'there is no epub ' + when)
    with zipfile.ZipFile(str(path)) as z:
        infos = z.infolist()
        names = [i.filename for i in infos]
        c.eq(sorted(names), sorted(set(names)), 'names in the epub ' + when)
        c.eq((names[0], infos[0].compress_type), ('mimetype', 0),
             'first file of the epub')
        data = {n: z.read(n) for n in names}
    c.eq(data['mimetype'].strip(), b'application/epub+zip', 'mimetype')
    cont = parse(c, 'container.xml', data['META-INF/container.xml'])
    roots = [e.get('full-path') for e in cont.iter()
             if e.tag.endswith('rootfile')]
    c.eq(roots, ['xhtml/content.opf'], 'package of the container')
    opf = parse(c, 'content.opf', data['xhtml/content.opf'])
    # 1. metadata
    meta = opf.find(OPF + 'metadata')
    title = site.title['main.dm'] or 'Default Title'
    c.eq([e.text for e in meta.findall(DC + 'title')], [title],
         'title of the epub ' + when)
    uid = [e for e in meta.findall(DC + 'identifier')
           if e.get('id') == opf.get('unique-identifier')]
    c.check(len(uid) == 1 and uid[0].text, 'identifier of the epub')
    props = {e.get('property'): e.text for e in meta.findall(OPF + 'meta')
             if e.get('property')}
    c.check(re.fullmatch(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ',
                         props.get('dcterms:modified', '')),
            lambda: 'date of the epub: {}'.format(props))
    want = {'rendition:layout': 'pre-paginated' if site.layout.get(
        'layout') == 'fixed' else 'reflowable',
        'rendition:orientation': site.layout.get('orientation', 'auto')}
    if 'spread' in site.layout:
        want['rendition:spread'] = site.layout['spread']
    c.eq({k: v for k, v in props.items() if k.startswith('rendition')},
         want, 'layout of the epub ' + when)
    # 2. manifest
    items = list(opf.find(OPF + 'manifest'))
    ids = [e.get('id') for e in items]
    c.eq(sorted(ids), sorted(set(ids)), 'ids of the manifest ' + when)
    for i in ids:
        c.check(re.fullmatch(r'[^\W\d][\w.-]*', i), lambda: 'the id {!r} of '
                'the manifest is no xml name'.format(i), key='id')
    hrefs = {}
    for e in items:
        h = urllib.parse.unquote(e.get('href'))
        c.check(' ' not in e.get('href'), lambda: 'url {!r} of the '
                'manifest'.format(e.get('href')))
        hrefs[e.get('id')] = 'xhtml/' + h
        c.eq(e.get('media-type'), TYPES.get(posixpath.splitext(h)[1]),
             'media type of ' + h)
    c.eq(sorted(hrefs.values()), sorted(n for n in names if n not in (
        'mimetype', 'META-INF/container.xml', 'xhtml/content.opf')),
        'files of the manifest ' + when, key='manifest')
    navs = [hrefs[e.get('id')] for e in items
            if e.get('properties') == 'nav']
    c.eq(navs, ['xhtml/toc.xhtml'], 'navigation of the manifest')
    # 3. reading order
    spine = [hrefs.get(e.get('idref')) for e in opf.find(OPF + 'spine')]
    c.eq(spine, ['xhtml/toc.xhtml'] + ['xhtml/' + n[:-3] + '.xhtml'
                                       for n in site.order()],
         'reading order of the epub ' + when, key='spine')
    # 4. documents
    trees = {n: parse(c, n, d) for n, d in data.items()
             if n.endswith('.xhtml')}
    anchors = {n: {e.get('id') for e in t.iter() if e.get('id')}
               for n, t in trees.items()}
    nlinks = 0
    for n, t in trees.items():
        images = []
        for e in t.iter():
            u = e.get('href') or e.get('src')
            if not u or re.match(r'\w+:', u):
                continue
            name, _, frag = u.partition('#')
            to = n if not name else posixpath.normpath(posixpath.join(
                posixpath.dirname(n), urllib.parse.unquote(name)))
            c.check(to in data, lambda: '{} has the link {!r}, which is not '
                    'in the epub {}'.format(n, u, when), key='broken')
            if frag:
                c.check(frag in anchors[to], lambda: '{} has the link {!r} '
                        'to an id which is not there'.format(n, u),
                        key='anchor')
            nlinks += 1
            if e.tag == XHTML + 'img':
                images.append(data[to])
        doc = n[len('xhtml/'):-len('.xhtml')] + '.dm'
        if doc in site.docs:
            c.eq(sorted(images), sorted(site.images[i]
                                        for i in site.imgs.get(doc, [])),
                 'images of {} {}'.format(n, when), key='images')
            head = t.find('.//' + XHTML + 'head/' + XHTML + 'title')
            up = doc
            while site.title[up] is None and up != 'main.dm':
                up = next(x for x in site.docs if up in site.subs[x])
            c.check(head is not None and head.text, 'title of ' + n)
            if site.title[doc]:
                c.eq(head.text, site.title[doc], 'title of ' + n)
    nav = trees['xhtml/toc.xhtml'].find('.//' + XHTML + 'nav')
    c.check(nav is not None and nav.find(XHTML + 'ol') is not None and
            nav.find('.//' + XHTML + 'a') is not None,
            'the table of contents of the epub has no list of links',
            key='nav')
    return nlinks


def prop(c):
    site = Book(c)
    p = Project(c.scratch / 'p')
    site.write(p)
    c.note('images: {}'.format(sorted(site.images)))
    env = p.open()
    c.eq(env.build(), 'done', 'status of the build')
    n = check_epub(c, site, p, 'at first')
    edits = c.int(0, 2)
    for i in range(edits):
        k = site.edit()
        c.note('edit', k)
        site.write(p)
        if c.bool():
            c.eq(p.doc.build(), 'done', 'status of a build after ' + k)
        else:
            p.env = None
            c.eq(p.open().build(), 'done', 'status of a build after ' + k)
        check_epub(c, site, p, 'after the edit ' + k)
    if len(site.docs) > 1 and (site.imgs or edits):
        c.nontrivial([site.body, site.docs, site.title])
    c.count('links', n)


def mixed(c):
    """Xhtml is a target of some documents of an epub only."""
    site = Book(c)
    subs = [n for n in site.docs if n != 'main.dm']
    if not subs:
        raise Reject()
    site.own[c.choice(subs)] = ['html'] if 'xhtml' in site.targets \
        else ['xhtml']
    p = Project(c.scratch / 'p')
    site.write(p)
    c.eq(p.open().build(), 'done', 'status of the build')
    try:
        check_epub(c, site, p, 'of a book with documents with and '
                   'without the xhtml target')
    except Violation as v:
        c.fail(str(v), key='mixed-targets')


def known_findings(listed, scratch):
    if 'mixed-targets' in listed:
        for text in ('html', 'xhtml'):
            root = scratch.new()
            p = Project(root / 'p')
            p.write('main.dm', header(
                targets='epub, xhtml' if text == 'html' else 'epub',
                include='\n  a.dm\n  b.dm') + '@ref{x} @chapter[id=y]{Y}\n')
            p.write('a.dm', header(targets=text) +
                    '@chapter[id=x]{X}\n\n@ref{y}\n')
            p.write('b.dm', '@chapter{Z}\n')
            p.open().build()
            with zipfile.ZipFile(str(p.target_root / 'epub/main.epub')) as z:
                if any(b'href="../' in z.read(n) for n in z.namelist()):
                    yield 'mixed-targets'
                    return


PARTS = [('books', prop, 150, 3000), ('mixed', mixed, 20, 100)]
