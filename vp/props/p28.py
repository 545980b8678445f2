"""P28: the checkers of dependencies report what is really installed."""
import contextlib
import io
import os
import pathlib
import re
import stat
import subprocess

from disseminate.cli.setup.checkers import print_dependencies
from disseminate.checkers import All, Any, Optional
from disseminate.checkers.pdf import PdfChecker
from disseminate.checkers.python import PythonChecker
from disseminate.checkers.external import ImageExtChecker

RULE = ("Random requirements (trees of 'all', 'any' and 'optional' of "
        "executables, LaTeX packages, fonts and classes, and python packages "
        "with and without versions) and random installations: a folder of "
        "programs as the path (some of them not executable, or folders), a "
        "stand-in for kpsewhich that knows random files, and a stand-in for "
        "the listing of pip (names that begin alike, other cases, versions "
        "with other numbers of parts, pre- and post-releases). After the "
        "check, the availability of each requirement and of each group is "
        "compared to a reference. Non-trivial: some requirements are met and "
        "some are not, in groups of two kinds.")
ASSUMPTIONS = ['kpsewhich and pip are stand-ins which answer as the real '
               'ones do.']

EXES = ['asy', 'conv', 'pdf2x', 'latexa', 'latexb', 'kpsewhich', 'x y',
        'a.b']
TEX = ['graphicx', 'caption', 'bm', 'geometry', 'b m', 'xcolor', 'article']
PY = ['regex', 'lxml', 'jinja2', 'python-slugify', 'click', 'pdfCropMargins',
      'regex-spm', 'lxml-stubs', 'click-plugins', 'clicky', 'Jinja2-time',
      'a_b', 'tornado', 'xclick']
KINDS = {'all': All, 'any': Any, 'optional': Optional}
OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       '>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '<': lambda a, b: a < b}


def canonical(name):
    return name.lower().replace('_', '-').replace('.', '-')


def tree(c, leaf, depth=2):
    """(kind, name, members): members are trees or names."""
    out = []
    for i in range(c.int(1, 6)):
        if depth and c.bool(0.25):
            out.append(tree(c, leaf, depth - 1))
        else:
            out.append(leaf())
    return (c.choice(['all', 'any', 'optional']),
            'g%d' % c.int(0, 99), out)


def build(t, name=None):
    return KINDS[t[0]](name or t[1], *[build(x) if isinstance(x, tuple)
                                       else x for x in t[2]])


def met(t, known):
    if isinstance(t, str):
        return known(t)
    got = [met(x, known) for x in t[2]]
    return {'all': all(got), 'any': any(got), 'optional': True}[t[0]]


def compare(c, real, t, known, where):
    c.eq(bool(real.available) if isinstance(t, tuple) else
         real.available is True, met(t, known), 'availability of {} in {}'
         .format(t if isinstance(t, str) else t[:2], where))
    if isinstance(t, tuple):
        c.eq(len(real), len(t[2]), 'number of members')
        for r, x in zip(real.dependencies, t[2]):
            compare(c, r, x, known, where)


def leaves(t):
    return [t] if isinstance(t, str) else [y for x in t[2]
                                           for y in leaves(x)]


def kinds_of(t):
    return set() if isinstance(t, str) else {t[0]}.union(
        *[kinds_of(x) for x in t[2]])


def install_programs(c, folder):
    """Programs in two folders of a path; returns those which can be run."""
    found = set()
    paths = []
    for n in 'ab':
        d = folder / n
        d.mkdir()
        paths.append(str(d))
        for e in c.subset(EXES, 0.4):
            k = c.weighted([(6, 'exe'), (1, 'file'), (1, 'dir')])
            p = d / e
            if k == 'dir':
                p.mkdir()
                continue
            p.write_text('#!/bin/sh\nexit 0\n')
            if k == 'exe':
                p.chmod(0o755)
                found.add(e)
            else:
                p.chmod(0o644)
    return found, paths


def finish(c, groups, known):
    parts = [known(x) for t in groups for x in leaves(t)]
    kinds = set().union(*[kinds_of(t) for t in groups])
    if any(parts) and not all(parts) and len(kinds) > 1:
        c.nontrivial(groups)


def check_all(c, checker, groups, known, kind):
    got = checker.check()
    top = all(met(t, known[t[1]]) for t in groups)
    want = {'all': top, 'any': True, 'optional': True}['all']
    c.eq(bool(got), want, 'result of the check')
    c.eq(bool(checker.available), want, 'availability of all')
    for t in groups:
        compare(c, checker[t[1]], t, known[t[1]], t[1])
    # the printed report says the same
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_dependencies(checker)
    text = re.sub(r'\x1b\[[0-9;]*m', '', out.getvalue())
    shown = re.findall(r"'([^']*)'[ .]*\[ *(\w+) *\]", text)
    expected = [(checker.category, want)]

    def visit(t, known):
        if isinstance(t, str):
            expected.append((t, known(t)))
            return
        expected.append((t[1], met(t, known)))
        for x in t[2]:
            visit(x, known)
    for t in groups:
        visit(t, known[t[1]])
    c.eq([(n, s == 'PASS') for n, s in shown], expected,
         'report:\n' + text + '\n')
    # a second check says the same
    c.eq(bool(checker.check()), want, 'result of the second check')


def with_path(paths, fn):
    old = os.environ['PATH']
    os.environ['PATH'] = os.pathsep.join(paths)
    try:
        return fn()
    finally:
        os.environ['PATH'] = old


def external(c):
    """Executables."""
    found, paths = install_programs(c, pathlib.Path(str(c.scratch)))
    t = tree(c, lambda: c.choice(EXES))
    t = (t[0], 'executables', t[2])
    c.note('requires {}; installed {}'.format(t, sorted(found)))
    checker = ImageExtChecker(All('image', build(t)))
    known = found.__contains__
    with_path(paths, lambda: check_all(c, checker, [t],
                                       {'executables': known}, 'all'))
    finish(c, [t], known)


def tex(c):
    """LaTeX files, by kpsewhich."""
    folder = pathlib.Path(str(c.scratch))
    found, paths = install_programs(c, folder)
    for p in paths:
        f = os.path.join(p, 'kpsewhich')
        if os.path.isdir(f):
            os.rmdir(f)
        elif os.path.exists(f):
            os.remove(f)
    found.discard('kpsewhich')
    has = c.bool(0.85)
    files = set()
    for name in TEX:
        for ext in ('.sty', '.tfm', '.cls'):
            if c.bool(0.4):
                files.add(name + ext)
    if has:
        found.add('kpsewhich')
        f = pathlib.Path(paths[c.int(0, 1)]) / 'kpsewhich'
        f.write_text('#!/bin/sh\ncase "$1" in\n' + ''.join(
            '"{}") echo "/x/$1"; exit 0;;\n'.format(x)
            for x in sorted(files)) + 'esac\nexit 1\n')
        f.chmod(0o755)
    groups = []
    known = {}
    exts = {'packages': '.sty', 'fonts': '.tfm', 'classes': '.cls'}
    for g in ['executables', 'packages', 'fonts', 'classes']:
        if not c.bool(0.7):
            continue
        names = EXES if g == 'executables' else TEX
        t = tree(c, lambda: c.choice(names), 1)
        groups.append((t[0], g, t[2]))
        known[g] = (found.__contains__ if g == 'executables' else
                    lambda x, e=exts[g]: has and x + e in files)
    if not groups:
        return
    c.note('requires {}; installed {} {}'.format(groups, sorted(found),
                                                 sorted(files)))
    checker = PdfChecker(All('pdf', *[build(t) for t in groups]))
    # (the order of the groups doesn't matter)
    with_path(paths + ['/bin', '/usr/bin'] if False else paths,
              lambda: check_all(c, checker, groups, known, 'all'))
    for t in groups:
        finish(c, [t], known[t[1]])


def version(c):
    return '.'.join(str(c.int(0, 3)) for _ in range(c.int(1, 3)))


def numbers(v):
    """The numbers of a release; trailing zeros have no meaning."""
    out = []
    for x in v.split('.'):
        if not x.isdigit():
            break
        out.append(int(x))
    while out and out[-1] == 0:
        out.pop()
    return tuple(out)


def python(c):
    """Python packages, by the listing of pip."""
    installed = {}
    for n in c.subset(PY, 0.45):
        v = version(c)
        suffix = c.weighted([(8, ''), (1, '.post1'), (1, '.dev0')])
        shown = c.choice([n, n.lower(), n.replace('-', '_')])
        installed[canonical(n)] = (shown, v, v + suffix)
    listing = ''.join('{}=={}\n'.format(installed[k][0], installed[k][2])
                      for k in sorted(installed))

    def leaf():
        n = c.choice(PY)
        n = c.choice([n, n, n.upper() if False else n.lower()])
        if c.bool(0.4):
            return n
        return n + c.choice(['', ' ']) + c.choice(sorted(OPS)) + \
            c.choice(['', ' ']) + version(c)

    def known(x):
        for i, ch in enumerate(x):
            if ch in '<>=! ':
                break
        else:
            i = len(x)
        name, rest = x[:i], x[i:].strip()
        if canonical(name) not in installed:
            return False
        if not rest:
            return True
        op = rest[:2] if rest[1] == '=' else rest[:1]
        have = numbers(installed[canonical(name)][1])
        return OPS[op](have, numbers(rest[len(op):].strip()))
    t = tree(c, leaf)
    t = (t[0], 'packages', t[2])
    c.note('requires {}; installed:\n{}'.format(t, listing))
    from disseminate.checkers import python as module

    class Stand:
        CalledProcessError = subprocess.CalledProcessError

        def __getattr__(self, name):
            return getattr(subprocess, name)

        @staticmethod
        def check_output(cmd, *args, **kwargs):
            return listing.encode()

        @staticmethod
        def run(cmd, *args, **kwargs):
            return subprocess.CompletedProcess(cmd, 0, listing.encode(), b'')
    old = module.subprocess
    module.subprocess = Stand()
    try:
        checker = PythonChecker(All('python', build(t)))
        check_all(c, checker, [t], {'packages': known}, 'all')
    finally:
        module.subprocess = old
    finish(c, [t], known)


PARTS = [('external', external, 1500, 15000), ('tex', tex, 150, 2000),
         ('python', python, 3000, 30000)]
