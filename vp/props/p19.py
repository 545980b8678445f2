"""P19: links follow the configured base url."""
import html
import os
import posixpath
import re
import urllib.parse

from ..project import Project, header
from .p20 import Site, links

RULE = ("Random projects as in P20 with absolute links (relative_links: "
        "False in the header of the root document or of some documents) and "
        "a base url of their own. Each link, image and style sheet of the "
        "html and xhtml files of these documents has to be the base url "
        "filled with the target and path of an existing output file (with "
        "the anchor in it); other documents only have relative links; and "
        "images have the contents of the source image. Non-trivial: at "
        "least two documents and four absolute links.")
ASSUMPTIONS = ["Links to the source and to other targets of the menu stay "
               "relative.",
               "The base url has no double slash other than after a scheme."]
BASES = [None, '/{target}/{subpath}', '/{subpath}', '/x/{subpath}',
         'https://a.b/{target}/{subpath}', 'http://h:80/p q/{subpath}',
         '/{target}/{subpath}', 'https://a.b/v1/{subpath}', '{subpath}']


class LinkSite(Site):
    def __init__(self, c):
        super().__init__(c)
        self.base_of = {}
        self.absolute = {}
        for n in self.docs:
            up = next((p for p in self.docs if n in self.subs[p]), None)
            # (values of the parent are inherited)
            self.absolute[n] = self.absolute[up] if up else False
            self.base_of[n] = self.base_of[up] if up else None
            self.own = getattr(self, 'own', {})
            own = self.own.setdefault(n, {})
            if c.bool(0.25) if up else c.bool(0.8):
                self.absolute[n] = c.bool(0.8)
                own['relative_links'] = c.choice(
                    ['False', 'false'] if self.absolute[n] else
                    ['True', 'true'])
            if c.bool(0.25) if up else c.bool(0.7):
                base = c.choice(BASES)
                if base:
                    own['base_url'] = base
                    self.base_of[n] = base

    def write(self, p):
        c = self.c
        for n, b in self.images.items():
            p.write(n, b)
        for n in self.docs:
            head = dict(self.own[n])
            if n == 'main.dm':
                head['targets'] = ', '.join(self.targets)
                if self.template:
                    head['template'] = self.template
            if self.subs[n]:
                here = posixpath.dirname(n)
                head['include'] = '\n' + '\n'.join(
                    '  ' + (s[len(here) + 1:] if here else s)
                    for s in self.subs[n])
            for k in ('toc', 'next', 'prev', 'txtlink', 'srclink'):
                if c.bool(0.15):
                    head[k] = {'toc': '@toc{all headings}'}.get(
                        k, '@' + k + '{}')
            text = header(**head) + '\n\n'.join(self.body[n]) + '\n'
            c.note('{}: {!r}'.format(n, text))
            p.write(n, text)
        c.note('images: {}'.format(sorted(self.images)))


def quoted(path):
    return path.replace('%', '%25').replace('#', '%23').replace('?', '%3F')


def url_map(root, target, base):
    """{url: path} of the files of a target."""
    out = {}
    top = os.path.join(root, target)
    for dirpath, _, files in os.walk(top):
        for f in files:
            path = os.path.join(dirpath, f)
            sub = os.path.relpath(path, top)
            # (other characters may be quoted as well)
            out[urllib.parse.unquote(base.format(
                target=target, subpath=quoted(sub)))] = path
    return out


def prop(c):
    site = LinkSite(c)
    p = Project(c.scratch / 'p')
    site.write(p)
    c.eq(p.open().build(), 'done', 'status of the build')
    root = str(p.target_root)
    n_abs = 0
    for target in site.targets:
        if target not in ('html', 'xhtml'):
            continue
        for n in site.docs:
            path = os.path.join(root, target, n[:-3] + '.' + target)
            rel = os.path.relpath(path, root)
            text, found = links(path)
            absolute = site.absolute[n]
            base = site.base_of[n] or '/{target}/{subpath}'
            urls = url_map(root, target, base) if absolute else {}
            images = []
            for attr, u in found:
                u = html.unescape(u)
                if u == '/':
                    continue
                name, _, frag = u.partition('#')
                plain = urllib.parse.unquote(name)
                while re.search('(?!\\.\\./)[^/]+/[.][.]/', plain) and absolute:
                    plain = re.sub('(?!\\.\\./)[^/]+/[.][.]/', '', plain,
                                   count=1)
                if plain in urls:
                    t = urls[plain]
                    n_abs += 1
                else:
                    # links to other targets and sources are relative
                    t = os.path.normpath(os.path.join(
                        os.path.dirname(path), urllib.parse.unquote(name))) \
                        if name else path
                    other = t.endswith('.dm') or not t.startswith(
                        os.path.join(root, target) + os.sep)
                    c.check(not absolute or not name or
                            other and os.path.isfile(t), lambda:
                            '{} has the link {!r}, which is not of an output '
                            'file with the base url {!r}'.format(
                                rel, u, base), key='absolute')
                c.check(os.path.isfile(t), lambda: '{} has the link {!r} to '
                        'no file'.format(rel, u), key='broken')
                if frag:
                    with open(t, encoding='utf-8') as f:
                        ids = re.findall(r'\bid="([^"]*)"', f.read())
                    c.check(frag in map(html.unescape, ids), lambda: '{} has '
                            'the link {!r}, without this id in the '
                            'file'.format(rel, u), key='anchor')
                if attr == 'src' and '/icons/' not in u:
                    with open(t, 'rb') as f:
                        images.append(f.read())
            want = [site.images[i]
                    for i in getattr(site, 'imgs', {}).get(n, [])]
            c.eq(sorted(images), sorted(want), 'images in ' + rel)
    if n_abs >= 4 and len(site.docs) > 1:
        c.nontrivial([site.own, site.body])
    c.count('absolute links', n_abs)


PARTS = [('links', prop, 200, 4000)]
