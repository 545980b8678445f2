"""P33: outputs depend on the project only, not on where or how it is built."""
import os
import posixpath
import re
import shutil
import subprocess
import sys

from .. import engine
from ..project import Project
from .p20 import Site

RULE = ("Random projects (documents in nested folders, images, code and "
        "tables from files, templates, references, navigation and lists of "
        "headings), built with absolute or relative paths from a current "
        "directory which is empty, part of the project or full of other "
        "files with the same names; in another place, next to another "
        "project or in a process of its own. The files of all targets have "
        "to be the same. Non-trivial: at least two documents, and an image, "
        "code or table file used.")
ASSUMPTIONS = ['The modification times of the sources are the same.',
               'The folders of the sources and outputs are at the same place '
               'relative to each other.']


class DataSite(Site):
    """A site that also reads code and tables from files."""

    def make(self, n):
        out = super().make(n)
        c = self.c
        here = posixpath.dirname(n)
        if not hasattr(self, 'data'):
            self.data = {}
        for _ in range(c.int(0, 2)):
            name = c.choice(['code.py', 'data.csv', 'pics/code.py',
                             'pics/data.csv'])
            path = c.choice([name, posixpath.join(here, name)])
            if name not in self.data and \
                    posixpath.join(here, name) not in self.data:
                self.data[path] = '1, 2\n3, 4{}\n'.format(path)
            if name.endswith('.py'):
                out.insert(-1, c.choice(['@code{%s}', '@python{%s}',
                                         'See @code{%s}.']) % name)
            else:
                out.insert(-1, '@table{@csv{%s}}' % name)
        return out

    def write(self, p):
        for n, b in sorted(self.data.items()):
            p.write(n, b)
        super().write(p)

    def rich(self):
        return len(self.docs) > 1 and (self.data or
                                       getattr(self, 'imgs', None))


GRAPHICS = re.compile(rb'(\\includegraphics(?:\[[^]]*\])?\{\{)'
                      rb'(?:\\detokenize\{([^}]*)\}|([^}]*))')


def outputs(root, targets):
    """{path: bytes} of the files of the targets. (The paths of images in tex
    files are absolute or relative to the current directory.)"""
    top = os.path.abspath(str(root))

    def graphics(m):
        path = os.path.abspath(os.fsdecode(
            m.group(2) or m.group(3)))
        return m.group(1) + os.fsencode(os.path.relpath(path, top))

    out = {}
    for t in targets:
        top = os.path.join(str(root), t)
        for dirpath, _, files in os.walk(top):
            for f in files:
                full = os.path.join(dirpath, f)
                with open(full, 'rb') as g:
                    data = g.read()
                if f.endswith('.tex'):
                    data = GRAPHICS.sub(graphics, data)
                out[os.path.relpath(full, str(root))] = data
    return out


def compare(c, got, want, what):
    """Compare {path: bytes}."""
    c.eq(sorted(got), sorted(want), 'the files ' + what)
    for f in sorted(want):
        c.check(got[f] == want[f], lambda: 'the file {} {}:\n{!r}\n  '
                'instead of\n{!r}'.format(f, what, *window(got[f], want[f])),
                key='contents')


def window(a, b):
    """The part of two byte strings around the first difference."""
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
             min(len(a), len(b)))
    return a[max(0, n - 80):n + 80], b[max(0, n - 80):n + 80]


def reference(c, site):
    """Build a site with absolute paths from an empty folder."""
    empty = c.scratch / 'empty'
    empty.mkdir(exist_ok=True)
    os.chdir(str(empty))
    p = Project(c.scratch / 'first')
    site.write(p)
    c.eq(p.open().build(), 'done', 'status of the first build')
    return p, outputs(p.target_root, site.targets)


def decoys(c, site, p, cwd):
    """Fill a folder with other files that have names of the project."""
    cwd.mkdir(parents=True, exist_ok=True)
    names = sorted(set(site.images) | set(site.data) | set(site.docs))
    for name in names:
        # also the names below the folders of the documents
        parts = name.split('/')
        for i in range(len(parts)):
            f = cwd / '/'.join(parts[i:])
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_text('decoy, ' + name + '\n')
    for f in ['media/css/default.css', 'media/css/bootstrap.min.css',
              'media/css/base.css', 'default.html', 'default/template.html',
              'default/context.txt', 'context.txt', 'template.html',
              'templates/default.html', 'html/main.html',
              'html/media/css/default.css', '.cache/html/main.html']:
        f = cwd / f
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_text('decoy {% if %}')


def place(c):
    site = DataSite(c)
    try:
        p, want = reference(c, site)
        where = c.choice(['src', 'root', 'empty', 'doc', 'decoy', 'decoy',
                          'decoy'])
        moved = c.bool(0.5)
        q = p
        if moved:
            q = Project(c.scratch / c.choice(
                ['second', 'a b/c.d', 'src', 'html/media', 'Ü']) / 'first')
            site.c = engine.Case(prefix=[0] * 50, scratch=c.scratch)
            shutil.copytree(str(p.src), str(q.src), dirs_exist_ok=True)
        else:
            for t in site.targets + ['.cache']:
                shutil.rmtree(str(p.target_root / t), ignore_errors=True)
        if where == 'decoy':
            cwd = c.scratch / 'decoy'
            decoys(c, site, q, cwd)
        else:
            cwd = {'src': q.src, 'root': q.root,
                   'empty': c.scratch / 'empty',
                   'doc': q.src / posixpath.dirname(
                       c.choice(site.docs))}[where]
        os.chdir(str(cwd))
        relative = c.choice(['no', 'both', 'src'])
        c.note('from', where, 'moved', moved, 'relative', relative)
        if relative != 'no':
            q.src = type(q.src)(os.path.relpath(str(q.src)))
        if relative == 'both':
            q.target_root = type(q.target_root)(
                os.path.relpath(str(q.target_root)))
        c.eq(q.open().build(), 'done', 'status of the second build')
        got = outputs(q.target_root, site.targets)
        compare(c, got, want, 'of a build from the folder {!r} (relative '
                'paths: {})'.format(where, relative))
        if site.rich():
            c.nontrivial([site.body, site.docs])
        c.count('from ' + where)
    finally:
        os.chdir('/')


def together(c):
    """Two projects in the same process, step by step."""
    sites = [DataSite(c), DataSite(c)]
    os.chdir('/')
    want = []
    ps = []
    for i, site in enumerate(sites):
        p = Project(c.scratch / 'alone{}'.format(i))
        site.write(p)
        c.eq(p.open().build(), 'done', 'status of the first build')
        want.append(outputs(p.target_root, site.targets))
        p.env = None
        q = Project(c.scratch / 'both{}'.format(i))
        shutil.copytree(str(p.src), str(q.src), dirs_exist_ok=True)
        ps.append(q)
    order = c.shuffle([0, 1])
    for i in order:
        ps[i].open()
    builders = {}
    if c.bool(0.7):
        for i in c.shuffle([0, 1]):
            builders[i] = ps[i].env.create_root_builder()
        status = dict.fromkeys(builders, 'ready')
        steps = 0
        while set(status.values()) & {'ready', 'building'}:
            for i in builders:
                if status[i] in ('ready', 'building') and c.bool(0.6):
                    status[i] = builders[i].build(complete=False)
            steps += 1
            c.check(steps < 20000, 'the builds do not end')
        c.eq(set(status.values()), {'done'}, 'status of the builds')
    else:
        for i in c.shuffle([0, 1]):
            c.eq(ps[i].env.build(), 'done', 'status of the build')
    for i in order:
        got = outputs(ps[i].target_root, sites[i].targets)
        compare(c, got, want[i], 'of a project built together with another')
    if all(s.rich() for s in sites):
        c.nontrivial([s.body for s in sites])


CHILD = '''
import sys
sys.path.insert(0, sys.argv[1])
from vp.project import Project
p = Project(sys.argv[2])
print('STATUS', p.open().build())
'''


def process(c):
    """A process of its own for the build."""
    site = DataSite(c)
    try:
        p, want = reference(c, site)
    finally:
        os.chdir('/')
    q = Project(c.scratch / 'other')
    shutil.copytree(str(p.src), str(q.src), dirs_exist_ok=True)
    env = dict(os.environ, PYTHONHASHSEED=str(c.int(0, 4000)),
               TZ=c.choice(['UTC', 'Asia/Tokyo']),
               PYTHONPATH=os.pathsep.join(sys.path))
    here = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    r = subprocess.run([sys.executable, '-c', CHILD, here, str(q.root)],
                       env=env, cwd=str(c.scratch), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=300)
    c.check(b'STATUS done' in r.stdout, lambda: 'the build in another '
            'process failed: {!r}'.format(r.stderr[-600:]))
    got = outputs(q.target_root, site.targets)
    compare(c, got, want, 'of a build in a process of its own')
    if site.rich():
        c.nontrivial([site.body, site.docs])


PARTS = [('places', place, 120, 4000), ('together', together, 50, 1500),
         ('process', process, 8, 200)]
