"""P18: a build rewrites the files that an edit affects, and no others."""
import os

from ..project import Project
from .p17 import Model, build_loop, outputs

RULE = ("The projects and edits of P17, with builds in the same session or a "
        "new one. A build after an edit of a text that no other document "
        "shows, or of an image or data file, must not write the outputs of "
        "documents other than the edited one (or those that use the file) "
        "again with the same content. Further builds after no edit at all, a "
        "new modification time of any source, a new file in the folder of "
        "the project or an edit that was undone before a build must not "
        "write or remove any file. Non-trivial: a build leaves the files of "
        "at least one other document alone and rewrites one.")
ASSUMPTIONS = ["Files in the cache folder are not compared, apart from the "
               "builds without an edit."]


def stamps(root):
    """{path: (inode, mtime)} of the output files, and of cached files."""
    out = {}
    for dirpath, dirs, files in os.walk(str(root)):
        if dirpath == str(root) and 'src' in dirs:
            dirs.remove('src')
        for f in files:
            full = os.path.join(dirpath, f)
            path = os.path.relpath(full, str(root))
            if 'md5decider' in path:
                continue
            s = os.stat(full)
            out[path] = (s.st_ino, s.st_mtime_ns)
    return out


def base(path):
    """The path of a document or output without target and extension."""
    return path.rsplit('.', 1)[0]


def build(c, p, how):
    if how == 'same':
        return p.doc.build()
    if how == 'env':
        return p.env.build()
    p.env = None
    env = p.open()
    return env.build() if how == 'new' else build_loop(env)


def quiet(c, p, when):
    """Builds without an edit."""
    before = stamps(p.target_root)
    files = sorted(os.path.relpath(os.path.join(d, f), str(p.src))
                   for d, _, fs in os.walk(str(p.src)) for f in fs)
    what = c.weighted([(2, 'nothing'), (2, 'touch'), (1, 'file'),
                       (1, 'undo')])
    if what == 'touch':
        for f in c.subset(files, 0.5):
            p.touch(f)
    elif what == 'file':
        p.write(c.choice(['new.dm', 'new.svg', 'd/new.csv', 'main.txt']),
                'new')
    elif what == 'undo':
        f = c.choice(files)
        data = (p.src / f).read_bytes()
        p.write(f, data + b'\n\nOther')
        p.write(f, data)
    how = c.choice(['same', 'env', 'new', 'loop'])
    when = '{} and {} ({} session)'.format(when, what, how)
    c.eq(build(c, p, how), 'done', 'status of the build ' + when)
    after = stamps(p.target_root)
    c.eq(sorted(set(before) - set(after)), [], 'files removed ' + when)
    c.eq(sorted(f for f in after if after[f] != before.get(f)), [],
         'files written ' + when, key='written')
    c.count('quiet ' + what)


def edit(m):
    """An edit of a text that isn't shown in other documents."""
    c = m.c
    n = c.choice(m.names)
    its = [it for it in m.body[n] if it[0] in ('p', 'list', 'mac')]
    if its and c.bool(0.6):
        c.choice(its)[1] = m.words()
    else:
        m.body[n].insert(c.int(0, len(m.body[n])), ['p', m.words()])
    return 'local', n


def prop(c):
    m = Model(c, c.choice(['html', 'html, tex, txt', 'html, xhtml',
                           'epub', 'html, epub, txt']))
    p = Project(c.scratch / 'p')
    m.write(p)
    for n in m.names:
        c.note('{}: {!r}'.format(n, m.source(n)))
    env = p.open()
    c.eq(env.build(), 'done', 'status of the first build')
    quiet(c, p, 'after the first build')
    nt = False
    for step in range(c.int(1, 3)):
        local = c.bool(0.5)
        k, n = edit(m) if local else m.edit()
        local = local or k == 'file'
        changed = m.write(p)
        how = c.choice(['same', 'new', 'loop'])
        c.note('{}. {} {} build in {} session: {!r}'.format(
            step, k, n, how, [(f, m.source(f)) for f in changed
                              if f.endswith('.dm')]))
        before, old = stamps(p.target_root), outputs(p.target_root, 'src')
        when = 'after step {} ({} {}, {} session)'.format(step, k, n, how)
        c.eq(build(c, p, how), 'done', 'status of the build ' + when)
        after, new = stamps(p.target_root), outputs(p.target_root, 'src')
        for f in sorted(after):
            if f not in before or f.startswith('.cache') or \
                    after[f] == before[f]:
                continue
            if f.endswith('.epub') or old.get(f) != new.get(f):
                continue
            if not local:
                continue
            d = f.partition('/')[2]
            ok = any(base(x) == base(d) or not x.endswith('.dm') and
                     (x in m.source(base(d) + '.dm') if base(d) + '.dm' in
                      m.names else True) for x in changed)
            c.check(ok, lambda: 'the build {} wrote {} again with the same '
                    'content'.format(when, f), key='again')
        if any(old.get(f) == new[f] and after.get(f) == before.get(f)
               for f in new) and any(old.get(f, new[f]) != new[f]
                                     for f in new):
            nt = True
        quiet(c, p, when)
    if nt:
        c.nontrivial([m.source(n) for n in m.names])


PARTS = [('histories', prop, 120, 3000)]
