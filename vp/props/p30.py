"""P30: the preview server shows the present state of the projects."""
import asyncio
import datetime
import io
import logging
import os
import pathlib
import posixpath
import urllib.parse
import warnings
import zipfile

import lxml.html
from tornado.httpclient import AsyncHTTPClient, HTTPRequest
from tornado.simple_httpclient import HTTPStreamClosedError, HTTPTimeoutError
from tornado.httpserver import HTTPServer
from tornado.netutil import bind_sockets

from disseminate.checkers import All, Any, Checker, Optional
from disseminate.server.app import get_app
from disseminate.server.handlers.store import reset_store
from disseminate.signals.signals import signals

RULE = ("Random projects (one or two below the folder of the server, in "
        "folders named src or not, with sub-documents, images, documents in "
        "one or more formats, names with blanks and special characters) are "
        "served in this process to a client that follows links and keeps "
        "pages like a browser (with conditional requests). Histories of "
        "edits of texts, titles, images and includes, texts that are "
        "rejected and repaired, and restarts, with requests of the list of "
        "documents, pages, sources and files in between, are compared to a "
        "model: the list has every document with its number, place, time "
        "and links; each link leads to the present file; a rejected text "
        "gives an error page with the error, missing files a page not "
        "found. Non-trivial: a page is requested again after an edit of its "
        "document, or after a rejected text.")
ASSUMPTIONS = ['The projects are in or below the folder in which the server '
               'is started.', 'Links are resolved as browsers do.']
SHRINK_RUNS = 80

warnings.filterwarnings('ignore', 'Duplicate name')     # (of zip files)
for name in ('tornado.access', 'tornado.application', 'tornado.general'):
    logging.getLogger(name).setLevel(logging.CRITICAL)

EXT = {'html': '.html', 'xhtml': '.xhtml', 'tex': '.tex', 'txt': '.txt',
       'epub': '.epub'}
FILES = ['a.dm', 'b c.dm', 'é.dm', 'x#1.dm', '50%25.dm', 'q?.dm', "o'b.dm",
         'a&b.dm', 'plus+.dm', 'x.y.dm']
TITLES = ['One', 'Two words', 'Tom & co', 'a < b', 'Über “x”', "it's"]
BAD = [('@ref{nolabel%d}', 'LabelNotFound', 'nolabel%d'),
       ('@img{nofile%d.png}', None, None),
       ('text%d @b{not closed', None, None),
       ('@section[id=twice%d]{x}\n\n@section[id=twice%d]{y}\n',
        'DuplicateLabel', 'twice%d')]
# (conversions to html fail)
FAIL = ('@img{g.pdf} %d', 'BuildError', 'grumble <b> & co')
TOOL = '#!/bin/sh\necho "grumble <b> & co"\necho more >&2\nexit 3\n'
PNG = 'PNG {}'


class Browser:
    """A client with a cache of pages."""

    def __init__(self, c):
        self.c = c
        self.loop = asyncio.new_event_loop()
        asyncio.set_event_loop(self.loop)
        self.server = None
        self.client = None
        self.cache = {}

    def start(self, in_path):
        self.stop()

        async def go():
            app = get_app(in_path=in_path, out_dir=None)
            self.server = HTTPServer(app)
            sockets = bind_sockets(0, '127.0.0.1')
            self.server.add_sockets(sockets)
            self.port = sockets[0].getsockname()[1]
            self.client = AsyncHTTPClient(force_instance=True)
        self.loop.run_until_complete(go())

    def stop(self):
        async def go():
            self.server.stop()
            await self.server.close_all_connections()
            self.client.close()
        if self.server is not None:
            self.loop.run_until_complete(go())
        self.server = None

    def close(self):
        self.stop()
        self.loop.run_until_complete(asyncio.sleep(0))
        self.loop.close()
        asyncio.set_event_loop(None)

    def get(self, path, cached=True):
        """The status and contents for a path (that starts with '/')."""
        headers = {'Connection': 'close'}
        old = self.cache.get(path) if cached else None
        if old:
            headers.update(old[0])

        async def go():
            request = HTTPRequest(
                'http://127.0.0.1:{}{}'.format(self.port, path),
                headers=headers, request_timeout=60, follow_redirects=False)
            return await self.client.fetch(request, raise_error=False)
        try:
            r = self.loop.run_until_complete(go())
        except (HTTPStreamClosedError, HTTPTimeoutError) as e:
            return type(e).__name__, b''
        if r.code == 304:
            self.c.check(old is not None, 'not modified, without condition')
            return 200, old[1]
        body = r.body or b''
        if r.code == 200:
            cond = {}
            if 'Etag' in r.headers:
                cond['If-None-Match'] = r.headers['Etag']
            if 'Last-Modified' in r.headers:
                cond['If-Modified-Since'] = r.headers['Last-Modified']
            self.cache[path] = (cond, body)
        return r.code, body


def follow(base, href):
    """The path that a browser requests for a link, or None."""
    url = urllib.parse.urljoin('http://h' + base, href)
    parts = urllib.parse.urlsplit(url)
    if parts.scheme != 'http' or parts.netloc != 'h':
        return None
    path = urllib.parse.quote(parts.path or '/', safe="/%:@!$&'()*+,;=~-._")
    if parts.query:
        path += '?' + urllib.parse.quote(parts.query, safe="%=&/?")
    return path


class Model:
    def __init__(self, c, base):
        self.c = c
        self.base = base
        self.n = 0
        self.tick = 1600000000
        self.bad = {}
        self.docs = {}      # path: dict(title, token, subs, targets, image)
        self.images = {}
        self.roots = []
        self.only = None
        layout = c.weighted([(4, ['p/src']), (2, ['p']), (2, ['src']),
                             (1, ['.']), (2, ['p/src', 'q']),
                             (1, ['a b/src', 'p/src'])])
        self.layout = layout
        folder = layout[0]
        choices = ['.', './', folder]
        parent = posixpath.dirname(folder)
        if parent:
            choices += [parent, parent + '/']
        if len(layout) > 1:
            choices = ['.', './']
        self.in_path = c.choice(choices)
        self.single = len(layout) == 1 and c.bool(0.3)
        if self.single:
            self.in_path = posixpath.normpath(
                posixpath.join(folder, 'main.dm'))
        for folder in layout:
            self.project(folder)

    def project(self, folder):
        c = self.c
        top = (folder + '/') if folder != '.' else ''
        targets = c.subset(['html', 'tex', 'txt', 'xhtml', 'epub'], 0.5) or \
            ['html']
        root = top + 'main.dm'
        self.image(top + 'f.png')
        self.images[top + 'g.pdf'] = 'PDF'
        self.add(root, folder, targets)
        self.roots.append(root)
        deep = 'd/' if not self.single else c.choice(['d/', ''])
        names = c.shuffle(FILES)[:c.int(0, 3)]
        for n in names:
            path = top + c.choice([deep, 'e f/' if not self.single else deep]
                                  ) + n
            own = [t for t in targets if t != 'epub'] or ['html']
            if c.bool(0.2):
                own = [c.choice(['html', 'tex', 'txt'])]
            self.add(path, folder, own)
            self.place(path, root)

    def place(self, path, root):
        """Include a document at some place."""
        c = self.c
        above = [root] + [p for p in self.reach(root)[1:]
                          if posixpath.dirname(p) == posixpath.dirname(path)]
        subs = self.docs[c.choice(above)]['subs']
        subs.insert(c.int(0, len(subs)), path)

    def add(self, path, folder, targets):
        self.docs[path] = dict(title=self.new_title(path), token=self.token(),
                               subs=[], targets=targets, folder=folder,
                               image=self.c.bool(0.4))

    def new_title(self, path):
        # (the roots have different titles)
        number = self.layout.index(posixpath.dirname(path) or '.') \
            if posixpath.basename(path) == 'main.dm' else ''
        return '{} {}'.format(self.c.choice(TITLES), number).strip()

    def image(self, path):
        self.images[path] = PNG.format(self.token())

    def token(self):
        self.n += 1
        return 'tok{}x'.format(self.n)

    def reach(self, root, level=1):
        rv = [root]
        for s in self.docs[root]['subs']:
            rv += self.reach(s)
        return rv

    def live(self):
        return [p for r in self.roots for p in self.reach(r)]

    def write(self, path=None):
        for p in [path] if path else list(self.images) + list(self.docs):
            f = self.base / p
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_text(self.images[p] if p in self.images else
                         self.source(p), encoding='utf-8')
            self.tick += 61
            os.utime(str(f), (self.tick, self.tick))

    def source(self, path):
        d = self.docs[path]
        here = posixpath.dirname(path)
        lines = ['title: ' + d['title'], 'targets: ' + ', '.join(d['targets'])]
        if d['subs']:
            lines.append('include:')
            lines += ['  ' + posixpath.relpath(s, here or '.')
                      for s in d['subs']]
        text = '---\n' + '\n'.join(lines) + '\n---\n'
        text += 'Some text {} here.\n'.format(d['token'])
        if d['image']:
            top = d['folder']
            text += '\n@img{' + posixpath.relpath(
                posixpath.join(top, 'f.png'), top) + '}\n'
        if path in self.bad:
            text += '\n' + self.bad[path][0] + '\n'
        return text

    def target(self, path, target):
        """The path of an output file from the folder of the server."""
        folder = self.docs[path]['folder']
        root = folder
        full = posixpath.normpath(posixpath.join('/base', folder))
        if posixpath.basename(full) == 'src':
            root = posixpath.normpath(posixpath.join(folder, '..'))
        sub = posixpath.relpath(path, folder)
        stem = sub[:-3]
        return posixpath.normpath(posixpath.join(
            root, target, stem + EXT[target]))


def text_of(code):
    """The text of a highlighted source page."""
    tree = lxml.html.fromstring(code.decode('utf-8'))
    cells = tree.xpath('//td[contains(@class, "code")]')
    return cells[0].text_content().strip() if cells else None


def words(e):
    return ' '.join(e.text_content().split())


class Check:
    def __init__(self, c, m, b):
        self.c, self.m, self.b = c, m, b

    def ok(self, path, what, **kwargs):
        code, body = self.b.get(path, **kwargs)
        if code != 200:
            text = words(lxml.html.fromstring(body.decode('utf-8') or '<p/>'))
            self.c.fail('status {} of {} {}: {}'.format(
                code, what, path, text[:1500]))
        return body

    def file(self, path, doc, target, what):
        """A page of a document has its present contents."""
        c, m = self.c, self.m
        body = self.ok(path, what)
        f = m.base / m.target(doc, target)
        c.check(f.is_file(), 'no file {} for {}'.format(f, path))
        token = m.docs[doc]['token']
        if target == 'tex':
            text = f.read_text(encoding='utf-8')
            c.eq(text_of(body), text.strip(), 'source page of ' + path)
        else:
            c.check(body == f.read_bytes(),
                    '{} {} is not the present file'.format(what, path))
            if target == 'epub':
                with zipfile.ZipFile(io.BytesIO(body)) as z:
                    text = ''.join(z.read(n).decode('utf-8')
                                   for n in z.namelist()
                                   if n.endswith('.xhtml'))
            else:
                text = body.decode('utf-8')
        c.check(token in text, '{} {} lacks the present text {}'.format(
            what, path, token))
        if target == 'html':
            self.page(path, body, doc)

    def page(self, path, body, doc):
        """The files used by a page are served."""
        c = self.c
        tree = lxml.html.fromstring(body.decode('utf-8'))
        images = 0
        for e, attr, href, _ in tree.iterlinks():
            if href.startswith('#') or attr not in ('href', 'src'):
                continue
            to = follow(path, href)
            if to is None:
                continue
            code, got = self.b.get(to)
            c.eq(code, 200, 'status of {} (the {} of {})'.format(
                to, e.tag, path))
            if e.tag == 'img' and posixpath.basename(to).startswith('f.'):
                images += 1
                top = self.m.docs[doc]['folder']
                token = self.m.images[posixpath.normpath(
                    posixpath.join(top, 'f.png'))]
                c.check(got.decode('utf-8') == token,
                        'the image of {} is not the present one'.format(path))
        c.eq(images, int(self.m.docs[doc]['image']), 'images of ' + path)

    def source(self, path, doc):
        body = self.ok(path, 'source')
        self.c.eq(text_of(body), self.m.source(doc).strip(),
                  'source page of ' + doc)

    def tree(self):
        c, m = self.c, self.m
        body = self.ok('/', 'list')
        tree = lxml.html.fromstring(body.decode('utf-8'))
        found = []
        links = []
        epubs = {m.docs[r]['title'] for r in m.roots
                 if 'epub' in m.docs[r]['targets']}
        own_xhtml = {(m.docs[r]['title'],
                      posixpath.relpath(p, m.docs[p]['folder']))
                     for r in m.roots for p in m.reach(r)
                     if 'xhtml' in m.docs[p]['targets']}
        for table in tree.xpath('//table'):
            caption = words(table.xpath('./caption')[0])
            rows = []
            for tr in table.xpath('.//tr[td]'):
                num, src, tgt, date = tr.xpath('./td')
                a = src.xpath('.//a')[0]
                targets = {words(x): x.get('href')
                           for x in tgt.xpath('.//a')}
                # (an epub is made from xhtml files in the cache)
                extra = caption in epubs and (
                    caption, words(a)) not in own_xhtml
                rows.append((tr.get('class'), words(num), words(a),
                             sorted(t for t in targets if t != 'xhtml' or
                                    not extra), words(date)))
                links.append((caption, words(a), a.get('href'), targets))
            found.append((caption, rows))
        expected = []
        docs = {}
        for root in m.roots:
            rows = []

            def add(path, level, number):
                d = m.docs[path]
                sub = posixpath.relpath(path, d['folder'])
                when = datetime.datetime.fromtimestamp(
                    (m.base / path).stat().st_mtime)
                rows.append(('level-%d' % level, '%d-%d' % (level, number),
                             sub, sorted(d['targets']),
                             when.strftime('%b %d, %Y (%I:%M%p)')))
                docs.setdefault((m.docs[root]['title'], sub), []).append(path)
                for i, s in enumerate(d['subs'], 1):
                    add(s, level + 1, i)
            add(root, 1, 1)
            expected.append((m.docs[root]['title'], rows))
        c.eq(sorted(found), sorted(expected), 'list of documents')
        for caption, sub, href, targets in c.shuffle(links):
            options = docs[(caption, sub)]
            to = follow('/', href)
            body = self.ok(to, 'source')
            match = [p for p in options
                     if text_of(body) == m.source(p).strip()]
            c.check(match, 'the link {} of {} leads to {!r}'.format(
                href, sub, text_of(body)))
            doc = match[0]
            for t, href in targets.items():
                if t not in m.docs[doc]['targets']:
                    self.ok(follow('/', href), 'link')
                    continue
                self.file(follow('/', href), doc, t, 'link')

    def other(self):
        c, b = self.c, self.b
        k = c.choice(['missing', 'checkers', 'signals', 'outside', 'media'])
        if k == 'missing':
            path = c.choice(['/nothing', '/no/such.html', '/x.svg', '/no.txt',
                             '/none.epub', '/none.tex', '/p/none.dm'])
            code, body = b.get(path)
            c.eq(code, 404, 'status of ' + path)
            c.check('not found' in words(lxml.html.fromstring(
                body.decode('utf-8'))).lower(), 'page of ' + path)
        elif k == 'outside':
            up = c.choice(['../', '%2e%2e/', '..%2f', 'p/../../'])
            path = '/' + up + 'secret' + c.choice(
                ['.dm', '.tex', '.txt', '.html'])
            if c.bool(0.3):
                path = '/' + urllib.parse.quote(
                    str(self.m.base.parent / ('secret' + path[path.rindex(
                        '.'):])), safe='')
            code, body = b.get(path)
            c.check(code != 200 and b'private text' not in body,
                    'a file outside of the folder is served: ' + path)
        elif k == 'media':
            # all that the pages of the server use
            path = c.choice(['/', '/checkers', '/signals', '/nothing'])
            _, body = b.get(path)
            tree = lxml.html.fromstring(body.decode('utf-8'))
            for e, attr, href, _ in tree.iterlinks():
                to = follow(path, href)
                if to and attr in ('href', 'src'):
                    self.ok(to, '{} of {}'.format(e.tag, path))
        elif k == 'signals':
            body = self.ok('/signals', 'page').decode('utf-8')
            tree = lxml.html.fromstring(body)
            names = [words(x) for x in tree.xpath(
                '//div[@class="listing"]//span[@class="name"]')]
            want = []
            for name, s in signals.items():
                want.append(name)
                d = s.receivers_dict()
                want += [d[o].__name__ for o in sorted(d)]
            c.eq(names, want, 'signals and receivers')
        else:
            body = self.ok('/checkers', 'page').decode('utf-8')
            tree = lxml.html.fromstring(body)
            found = [(words(li.xpath('./span')[0]), words(li.xpath(
                './span')[1])) for li in tree.xpath(
                    '//div[@class="listing"]//li')]
            want = []

            def add(item, required):
                status = {True: 'ok', False: 'fail' if required else 'missing'
                          }.get(item.available, 'unknown')
                kind = [k for k in (All, Any, Optional)
                        if isinstance(item, k)]
                if kind:
                    want.append((item.category, status))
                    for i in item:
                        add(i, kind[0] is All)
                else:
                    want.append((item.name, status))
            for cls in Checker.checker_subclasses():
                checker = cls()
                checker.check()
                add(checker, True)
            c.eq(len(found), len(want), 'number of checkers')
            for (text, status), (name, st) in zip(found, want):
                c.check("'{}'".format(name) in text and status == st,
                        'checker {} {} is shown as {} {}'.format(
                            name, st, text, status))

    def error(self):
        """The pages while a text is rejected."""
        c, m = self.c, self.m
        paths = ['/']
        for d in m.live():
            for t in m.docs[d]['targets']:
                if t in ('html', 'tex', 'epub'):
                    paths.append('/' + urllib.parse.quote(m.target(d, t)))
        path = c.choice(paths)
        code, body = self.b.get(path)
        c.eq(code, 500, 'status of {} with a rejected text'.format(path))
        text = words(lxml.html.fromstring(body.decode('utf-8') or '<p/>'))
        _, kind, what = list(m.bad.values())[0]
        if len(m.bad) == 1:
            c.check('Exception Type' in text, 'no error on the error page of '
                    '{}: {!r}'.format(path, text))
            for x in (kind, what):
                c.check(x is None or x in text,
                        '{} is not on the error page of {}: {!r}'.format(
                            x, path, text[:300]))
        # the sources can still be seen
        doc = c.choice(m.live())
        self.source('/' + urllib.parse.quote(doc), doc)


def history(c, m, b):
    k = Check(c, m, b)
    nt = False
    acts = []
    seen = set()
    shown = False
    for step in range(c.int(2, 7)):
        act = c.weighted([(4, 'edit'), (2, 'title'), (1.5, 'image'),
                          (1.5, 'move'), (1.5, 'bad'), (0.7, 'restart'),
                          (1.5, 'other'), (1, 'none')])
        live = m.live()
        c.note(act)
        acts.append(act)
        if act == 'edit':
            d = c.choice(live)
            m.docs[d]['token'] = m.token()
            m.write(d)
            nt |= d in seen
        elif act == 'title':
            d = c.choice(live)
            m.docs[d]['title'] = m.new_title(d)
            m.write(d)
        elif act == 'image':
            p = c.choice(sorted(x for x in m.images if x.endswith('png')))
            m.image(p)
            m.write(p)
        elif act == 'move':
            subs = [d for d in live if d not in m.roots]
            if subs:
                d = c.choice(subs)
                root = next(r for r in m.roots if d in m.reach(r))
                p = next(x for x in m.reach(root) if d in m.docs[x]['subs'])
                m.docs[p]['subs'].remove(d)
                m.write(p)
                inner, m.docs[d]['subs'] = m.docs[d]['subs'], []
                if inner:
                    m.write(d)
                if c.bool(0.7):
                    m.docs[root]['subs'].insert(0, d)
                    m.write(root)
        elif act == 'bad':
            able = [x for x in live
                    if set(m.docs[x]['targets']) & {'html', 'tex'}]
            if not able:
                continue
            d = c.choice(able)
            text, kind, what = c.choice(
                BAD + [FAIL] * ('html' in m.docs[d]['targets']))
            m.n += 1
            m.bad[d] = (text.replace('%d', str(m.n)), kind,
                        what and what.replace('%d', str(m.n)))
            m.write(d)
            for _ in range(c.int(1, 2)):
                k.error()
            nt = True
            m.bad.clear()
            m.docs[d]['token'] = m.token()
            m.write(d)
        elif act == 'restart':
            reset_store()
            b.start(m.in_path)
        elif act == 'other':
            k.other()
        # look at the pages
        if c.bool(0.6):
            pages = [(d, t) for d in m.live() for t in m.docs[d]['targets']
                     if t in ('html', 'tex', 'epub')]
            if pages:
                d, t = c.choice(pages)
                path = '/' + urllib.parse.quote(m.target(d, t))
                k.file(path, d, t, 'page')
                seen.add(d)
        if c.bool(0.4):
            d = c.choice(m.live())
            k.source('/' + urllib.parse.quote(d), d)
        if c.bool(0.5) or not shown:
            k.tree()
            shown = True
            seen.update(m.live())
    k.tree()
    if nt:
        c.nontrivial((m.layout, m.in_path, acts))


def prop(c):
    top = pathlib.Path(str(c.scratch))
    base = top / 'base'
    base.mkdir()
    for ext in ('.dm', '.tex', '.txt', '.html'):
        (top / ('secret' + ext)).write_text('private text\n')
    tools = top / 'tools'
    tools.mkdir()
    (tools / 'pdf2svg').write_text(TOOL)
    (tools / 'pdf2svg').chmod(0o755)
    m = Model(c, base)
    m.write()
    cwd = os.getcwd()
    path = os.environ['PATH']
    os.environ['PATH'] = str(tools) + ':' + path
    b = Browser(c)
    os.chdir(str(base))
    try:
        reset_store()
        b.start(m.in_path)
        c.note('server of', m.in_path, m.docs)
        history(c, m, b)
    finally:
        try:
            b.close()
        finally:
            os.chdir(cwd)
            os.environ['PATH'] = path
            reset_store()


PARTS = [('preview', prop, 48, 900)]
