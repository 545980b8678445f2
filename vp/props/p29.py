"""P29: a project starter is copied whole, and only when it is wanted."""
import os
import pathlib
import re

from click.testing import CliRunner

from disseminate.builders import Environment
from disseminate.cli import init as _  # noqa: F401
import sys

RULE = ("Random collections of project starters (in nested templates, with "
        "random text and binary files in folders, titles, descriptions of "
        "several lines), random output folders (empty, with other files, "
        "with files of the same names, the current folder), and calls of the "
        "'init' command: clone with answers yes and no and without "
        "questions, unknown names, listings, information. The folder "
        "afterwards and the printed names and files are compared to a "
        "reference. The starters of the package are cloned and built too: "
        "the build has to be done. Non-trivial: a clone into a folder that "
        "is not empty, or a starter of three files in two folders.")
ASSUMPTIONS = ['The folder of templates is a scratch folder, except for the '
               "package's own starters."]
SHRINK_RUNS = 200

init = sys.modules['disseminate.cli.init']
PACKAGE = init.template_path
FILES = ['src/main.dm', 'src/a b.dm', 'src/sub/c.dm', 'README', 'src/é.dm',
         'src/pics/x.png', 'src/sub/deep/d.dm', '.hidden', 'src/empty.txt',
         'src/descriptions.yaml', 'other/template.html']
TEMPLATES = ['default', 'books/tufte', 'books/novel', 'articles/basic', 'x']
NAMES = ['one1', 'book2', 'essay1', 'a-b', 'z_9']
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'of', 'the', 'x1']


def content(c):
    if c.bool(0.2):
        return b''
    if c.bool(0.3):
        return bytes(c.int(0, 255) for _ in range(c.int(1, 12)))
    return ('\n'.join(' '.join(c.choice(WORDS) for _ in range(c.int(0, 4)))
                      for _ in range(c.int(1, 4))) +
            c.choice(['', '\n', '\r\n'])).encode()


def words(c, lo=1, hi=5):
    return ' '.join(c.choice(WORDS) for _ in range(c.int(lo, hi)))


def snapshot(folder):
    return {str(p.relative_to(folder)): p.read_bytes()
            for p in sorted(folder.rglob('*')) if p.is_file()}


def strip(text):
    return re.sub(r'\x1b\[[0-9;]*m', '', text)


def call(args, answer, cwd):
    old = os.getcwd()
    os.chdir(str(cwd))
    try:
        return CliRunner().invoke(init.init, args, input=answer)
    finally:
        os.chdir(old)


def prop(c):
    base = pathlib.Path(str(c.scratch))
    templates = base / 'templates'
    starters = {}
    for _ in range(c.int(1, 4)):
        t, n = c.choice(TEMPLATES), c.choice(NAMES)
        if t + '/' + n in starters:
            continue
        d = templates / t / 'starters' / n
        files = {f: content(c) for f in c.subset(FILES, 0.4) or ['src/m.dm']}
        for f, data in files.items():
            p = d / f
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(data)
        desc = [words(c) for _ in range(c.int(1, 3))]
        title = words(c) if c.bool(0.7) else None
        (d / 'description.yaml').write_text(
            ('title: ' + title + '\n' if title else '') + 'description:' +
            ('\n  ' if c.bool(0.7) else ' ') +
            '\n  '.join(desc) + '\n')
        starters[t + '/' + n] = (files, desc, title)
        # files of templates that aren't starters
        (templates / t / 'html').mkdir(exist_ok=True)
        (templates / t / 'html' / 'template.html').write_text('x')
    names = sorted(starters)
    out = base / 'out dir'
    out.mkdir()
    before = {}
    every = sorted({f for n in names for f in starters[n][0]})
    if c.bool(0.6):
        for f in c.subset(every + ['mine.txt', 'src/notes'], 0.3):
            before[f] = b'mine ' + f.encode()
            (out / f).parent.mkdir(parents=True, exist_ok=True)
            (out / f).write_bytes(before[f])
    if c.bool(0.15):
        (out / 'emptyfolder').mkdir()
    all_before = snapshot(templates)
    old = init.template_path
    init.template_path = templates
    try:
        empty = not any(out.iterdir())
        op = c.weighted([(6, 'clone'), (1, 'unknown'), (1, 'list'),
                         (1, 'info')])
        name = c.choice(names)
        files, desc, title = starters[name]
        here = c.bool(0.3)
        args = [] if here else ['-o', c.choice(['out dir', './out dir',
                                                str(out)])]
        cwd = out if here else base
        want = dict(before)
        c.note('{} of {} among {}; before: {}'.format(op, name, names,
                                                      sorted(before)))
        if op == 'clone':
            quiet = c.bool(0.4)
            answer = c.choice(['y\n', 'n\n', '\n', 'yes\n', ''])
            a = args + ([c.choice(['-n', '--non-interactive'])] if quiet
                        else [])
            c.note('answer {!r}, arguments {}'.format(answer, a))
            r = call([name] + a if c.bool() else a + [name], answer, cwd)
            if quiet or empty or answer in ('y\n', 'yes\n'):
                want.update(files)
                c.eq(r.exit_code, 0, 'exit code')
                text = strip(r.output)
                for f in files:
                    c.check(name + '/' + f in text, 'no message on {}: {}'
                            .format(f, text), key='message')
            c.check(not (r.exit_code == 0 and r.exception), 'error')
            if r.exception is not None and not isinstance(r.exception,
                                                          SystemExit):
                raise r.exception
            if before or len(files) > 2:
                c.nontrivial([sorted(files), sorted(before)])
        elif op == 'unknown':
            wrong = c.choice([name + 'x', 'none', name.split('/')[-1],
                              name.upper(), name + '/'])
            r = call([wrong] + args + ['-n'], '', cwd)
            c.check(r.exit_code == 2, lambda: 'unknown starter {!r}: exit '
                    'code {}, {}'.format(wrong, r.exit_code, r.output))
        elif op == 'list':
            r = call(c.choice([[], ['-l'], [name, '--list']]), 'y\n', cwd)
            lines = [x.split(' - ') for x in strip(r.output).splitlines()]
            c.eq([x[0].strip() for x in lines], names, 'listed names')
            c.eq([x[1].strip() for x in lines],
                 [starters[n][1][0] for n in names], 'descriptions')
            c.eq(r.exit_code, 0, 'exit code')
        else:
            r = call([name, '--info'] + args, 'y\n', cwd)
            c.eq(r.exit_code, 0, 'exit code')
            lines = [x.strip() for x in strip(r.output).splitlines()]
            c.eq(lines[0], '{} ({})'.format(title, name) if title else name,
                 'first line of the information')
            for x in desc + sorted(files):
                c.check(x in lines, 'no line {!r} in the information {}'
                        .format(x, lines))
            c.check('template.html' not in lines, 'foreign file')
        c.eq(snapshot(out), want, 'files in the output folder')
        c.eq(snapshot(templates), all_before, 'files of the templates')
        c.eq(sorted(x.name for x in base.iterdir()),
             ['out dir', 'templates'], 'folder')
    finally:
        init.template_path = old


def package(c):
    """The starters of the package: whole copies that can be built."""
    base = pathlib.Path(str(c.scratch))
    names = sorted(str(p.parent.relative_to(PACKAGE)).replace(
        '/starters', '').replace('starters/', '')
        for p in PACKAGE.rglob('description.yaml'))
    name = names[c.int(0, len(names) - 1)]
    c.note(name)
    r = call([name, '-n', '-o', str(base)], '', base)
    c.eq(r.exit_code, 0, 'exit code')
    parts = name.split('/')
    folder = PACKAGE.joinpath(*parts[:-1]) / 'starters' / parts[-1]
    want = snapshot(folder)
    want.pop('description.yaml')
    c.eq(snapshot(base), want, 'copied files')
    envs = Environment.create_environments(root_path=base)
    c.check(envs, 'no project in ' + name)
    for e in envs:
        c.eq(e.build(), 'done', 'build of ' + name)
        for d in e.root_document.documents_list(only_subdocuments=False,
                                                recursive=True):
            head = re.search(r'(?m)^targets:(.*)$',
                             d.src_filepath.read_text())
            for t in (head.group(1) if head else 'html').split(','):
                if t.strip() in ('none', 'epub') and d is not e.root_document:
                    continue        # (one epub file of all documents)
                f = d.targets.get('.' + t.strip())
                c.check(f is not None and f.exists() and f.stat().st_size > 0,
                        'no file for {} of {}'.format(t, d), key='file')
    if len(want) > 1:
        c.nontrivial(name)


PARTS = [('init', prop, 1500, 20000), ('package', package, 8, 40)]
