"""P27: the build command builds each project below a folder, once, in place."""
import os
import pathlib
import re

from click.testing import CliRunner

from disseminate.cli.build import build

RULE = ("Random folder trees with documents at random places (base folders "
        "with one or several root documents, folders named 'src', folders "
        "below other projects, documents that are included from folders "
        "below or are not, other files), built by the build command with the "
        "folder or a document given absolutely, relatively or by the current "
        "folder, with and without an output folder. The files afterwards are "
        "compared to a reference: the root documents are those of the "
        "topmost folders with documents; each and its included documents "
        "have one file per target in the output folder of the project (the "
        "parent of a folder 'src'), sources are as before and nothing else "
        "is written. Several projects for one output folder are an error "
        "that writes nothing. Non-trivial: two projects, or an ignored "
        "document.")
ASSUMPTIONS = ['Hidden files (the cache) are not compared.']

DIRS = ['', 'src', 'one', 'one/src', 'two', 'two/deep', 'two/src/part',
        'src/part', 'a b', 'a b/src', 'x/y/src', 'srcs', 'one/html']
NAMES = ['main.dm', 'a.dm', 'b c.dm', 'x.y.dm', 'é.dm']
TARGETS = {'html': '.html', 'tex': '.tex', 'txt': '.txt', 'xhtml': '.xhtml'}


def prop(c):
    base = pathlib.Path(str(c.scratch)) / 'base'
    base.mkdir()
    docs = {}       # path: (text, targets, included paths)
    dirs = c.subset(DIRS, 0.3) or [c.choice(DIRS)]
    for d in dirs:
        names = c.subset(NAMES, 0.35) or [c.choice(NAMES)]
        for n in names:
            docs[str(pathlib.PurePosixPath(d) / n)] = None
    folders = {str(pathlib.PurePosixPath(x).parent) for x in docs}

    def above(folder):
        return [str(p) for p in pathlib.PurePosixPath(folder).parents]

    def roots(where, within):
        """Topmost folders with documents below a folder."""
        inside = [f for f in folders if within == '.' or f == within or
                  f.startswith(within + '/')]
        return [f for f in inside
                if not any(p in inside for p in above(f))]
    tops = roots(None, '.')
    # documents of deeper folders can be included by one root document
    used = set()
    k = 0
    for path in sorted(docs):
        folder = str(pathlib.PurePosixPath(path).parent)
        subs = []
        if folder in tops:
            deeper = [x for x in sorted(docs) if x not in used and
                      folder in above(str(pathlib.PurePosixPath(x).parent))]
            subs = c.subset(deeper, 0.5)
            used.update(subs)
        k += 1
        targets = c.subset(sorted(TARGETS), 0.4) or ['html']
        docs[path] = ['w{}z'.format(k), targets, subs]
    for path, (word, targets, subs) in docs.items():
        p = base / path
        p.parent.mkdir(parents=True, exist_ok=True)
        head = 'targets: ' + ', '.join(targets) + '\n'
        if subs:
            rel = [os.path.relpath(s, os.path.dirname(path) or '.')
                   for s in subs]
            head += 'include:\n' + ''.join('  ' + r + '\n' for r in rel)
        p.write_text('---\n' + head + '---\n' + word + '\n')
    for f in c.subset(['note.txt', 'one/x.html', 'src/data.csv', 'dm',
                       'two/y.dmx', 'z/main.md'], 0.3):
        (base / f).parent.mkdir(parents=True, exist_ok=True)
        (base / f).write_text('other')
    before = {str(p.relative_to(base)): p.read_bytes()
              for p in base.rglob('*') if p.is_file()}

    # which projects
    given = c.weighted([(4, '.'), (1, 'file'), (2, 'folder')])
    if given == 'file':
        path = c.choice(sorted(docs))
        built = [path]
        what = path
    else:
        what = '.' if given == '.' else c.choice(sorted(
            {a for f in folders for a in [f] + above(f)}))
        built = sorted(x for x in docs
                       if str(pathlib.PurePosixPath(x).parent)
                       in roots(None, what))
    out = c.choice([None, None, 'out', 'one']) if \
        (base / 'one').is_dir() else c.choice([None, None, 'out'])
    if out == 'out':
        (base / 'out').mkdir()
    how = c.choice(['absolute', 'relative', 'inside'])
    cwd = base
    if how == 'absolute':
        arg = str(base / what)
        outarg = str(base / out) if out else None
        cwd = pathlib.Path('/dev/shm')
    elif how == 'relative' or given == 'file':
        arg = what
        outarg = out
    else:
        cwd = base / what
        arg = None if c.bool() else '.'
        outarg = os.path.relpath(str(base / out), str(cwd)) if out else None
    args = []
    if arg is not None:
        args += [c.choice(['-i', '--in-path']), arg]
    if outarg is not None:
        args += [c.choice(['-o', '--out-dir']), outarg]
    c.note('documents {}\nother files {}\nbuild {} in {}'.format(
        docs, sorted(set(before) - set(docs)), args, cwd.name))

    # reference
    want = {}       # file: its word
    clash = False
    for r in built:
        folder = str(pathlib.PurePosixPath(r).parent)
        if out:
            target_root = out
        elif pathlib.PurePosixPath(folder).name == 'src':
            target_root = str(pathlib.PurePosixPath(folder).parent)
        elif folder == '.' and base.name == 'src':
            target_root = '..'
        else:
            target_root = folder
        for x in [r] + docs[r][2]:
            word, targets, _ = docs[x]
            rel = os.path.relpath(x, folder)
            for t in targets:
                f = os.path.normpath(os.path.join(
                    target_root, t, os.path.splitext(rel)[0] + TARGETS[t]))
                clash |= f in want and want[f] != word
                want[f] = word
    if clash:
        return
    old = os.getcwd()
    os.chdir(str(cwd))
    try:
        r = CliRunner().invoke(build, args)
    finally:
        os.chdir(old)
    error = out is not None and len(built) > 1
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        raise r.exception
    c.eq(r.exit_code, 2 if error else 0, 'exit code; output: ' + r.output)
    if error:
        want = {}
    else:
        c.eq(r.output.splitlines(), ['Build: done'] * len(built),
             'printed lines')
    found = {}
    for p in base.rglob('*'):
        rel = str(p.relative_to(base))
        if p.is_file() and not any(x.startswith('.') for x in p.parts[-9:]):
            found[rel] = p.read_bytes()
    for f, data in before.items():
        if f in want:
            continue
        c.check(found.get(f) == data, 'the file {} has changed'.format(f))
    new = {f for f in found if f not in before}
    new = {f for f in new if not re.search(
        r'(^|/)(html|xhtml)/media/', f)}
    c.eq(sorted(new), sorted(f for f in want if f not in before),
         'new files')
    for f, word in want.items():
        text = found[f].decode()
        words = re.findall(r'\bw\d+z\b', text)
        c.check(word in words, 'the file {} lacks {}'.format(f, word))
        c.eq(set(words), {word}, 'words of ' + f)
    ignored = given == '.' and len(built) + len(
        [s for b in built for s in docs[b][2]]) < len(docs)
    if len(built) > 1 or ignored:
        c.nontrivial([sorted(docs), built])


PARTS = [('build', prop, 400, 8000)]
