"""P16: the document tree follows the includes through any history of edits."""
from .. import gen
from ..project import Project

from disseminate.document.exceptions import DocumentException
from disseminate.tags.exceptions import TagError

RULE = ("Random include graphs of two to seven files (repeated includes, "
        "includes of itself and of ancestors, cycles, shared subdocuments, "
        "subdirectories, missing files) and random histories of edits "
        "(includes added, removed, reordered and moved, contents changed, "
        "files with errors and missing files that are repaired, loads of "
        "subdocuments); after every load the tree, levels, labels and "
        "rendered text have to equal a reference traversal and a fresh load "
        "of the same files. Non-trivial: the history changes the tree.")

NAMES = ['main.dm', 'a.dm', 'b.dm', 'd/c.dm', 'd/a.dm', 'd/s/f.dm', 'A.dm']


class Model:
    def __init__(self, c):
        self.c = c
        self.n = c.int(2, 7)
        self.names = NAMES[:self.n]
        self.inc = {x: [] for x in self.names}
        self.body = {x: 'text' for x in self.names}
        self.bad = set()
        self.missing = set()
        self.counter = 0

    def can(self, x):
        """The files that x can include (in its folder or below)."""
        pre = x.rsplit('/', 1)[0] + '/' if '/' in x else ''
        return [y for y in self.names if y.startswith(pre)]

    def new_includes(self, x, p=0.35):
        c = self.c
        out = [y for y in c.shuffle(self.can(x)) if c.bool(p)]
        if out and c.bool(0.1):
            out.append(c.choice(out))
        self.inc[x] = out

    def new_body(self, x):
        c = self.c
        self.counter += 1
        t = 'body%d of %s.\n\n' % (self.counter, x[:-3].replace('/', '-'))
        for k in c.list(lambda: c.choice(['section', 'chapter', 'id', 'p']),
                        0, 3):
            self.counter += 1
            if k == 'p':
                t += 'paragraph @b{%d}\n\n' % self.counter
            elif k == 'id':
                t += '@section[id=id%d]{Title %d}\n\n' % (self.counter,
                                                          self.counter)
            else:
                t += '@%s{Title %d}\n\n' % (k, self.counter)
        self.body[x] = t

    def text(self, x):
        pre = len(x.rsplit('/', 1)[0]) + 1 if '/' in x else 0
        head = ['targets: txt'] if x == 'main.dm' else []
        if self.inc[x]:
            head.append('include:\n' + '\n'.join(
                '  ' + y[pre:] for y in self.inc[x]))
        out = '---\n' + '\n'.join(head) + '\n---\n' if head else ''
        return out + self.body[x] + ('@b{ never closed' if x in self.bad
                                     else '')

    def tree(self):
        """The list of (name, level) in order, or None if loading fails."""
        seen = set()
        out = []
        ok = [True]

        def visit(x, level):
            seen.add(x)
            out.append((x, level))
            if x in self.bad or x in self.missing:
                ok[0] = False
                return
            for y in self.inc[x]:
                if y not in seen:
                    visit(y, level + 1)
        visit('main.dm', 1)
        return out if ok[0] else None


def snapshot(p):
    docs = p.docs()
    out = []
    for d in docs:
        out.append((str(d.src_filepath.subpath), d.context['level'],
                    [str(x.subpath) for x in d.subdocuments],
                    str(d.context['body'].txt), str(d.context['body'].html)))
    lm = p.doc.label_manager
    labels = [(x.id, x.doc_id, x.kind, x.title, x.order)
              for x in lm.labels.values()]
    return out, labels


def prop(c):
    m = Model(c)
    p = Project(c.scratch / 'p')
    p.step = c.choice([1, 0.25])        # (edits within the same second)
    for x in m.names:
        m.new_includes(x)
        m.new_body(x)
        p.write(x, m.text(x))
    for x in m.names:
        c.note('{}: {!r}'.format(x, m.text(x)))
    p.open()
    trees = [compare(c, p, m, 'at first')]
    for step in range(c.int(1, 6)):
        ops = []
        for _ in range(c.int(1, 3)):
            ops.append(edit(c, p, m))
        c.note('{}. {}'.format(step, '; '.join(ops)))
        when = 'after step {}'.format(step)
        want = m.tree()
        if want is None:
            for n in range(c.choice([1, 2])):
                try:
                    p.doc.load()
                except (DocumentException, TagError):
                    c.count('failed loads')
                    continue
                c.fail('load {} of a project with the files {} in error and '
                       '{} missing did not fail {}'.format(
                           n, sorted(m.bad), sorted(m.missing), when))
            continue
        if c.bool(0.15) and len(p.docs()) > 1:
            # a load that starts at a subdocument
            try:
                p.docs()[-1].load()
            except (DocumentException, TagError):
                pass
        p.doc.load()
        trees.append(compare(c, p, m, when))
        c.check(p.doc.load() is False,
                lambda: 'a second load reloads documents ' + when)
    if len(set(map(repr, trees))) > 1:
        c.nontrivial((c.labels))


def edit(c, p, m):
    k = c.weighted([(4, 'inc'), (3, 'move'), (3, 'body'), (1, 'touch'),
                    (1, 'break'), (2 if m.bad | m.missing else 0, 'repair'),
                    (0.7, 'remove')])
    x = c.choice(m.names)
    if k == 'inc':
        m.new_includes(x)
    elif k == 'move':
        # move a file from one list of includes to another one
        src = [y for y in m.names if m.inc[y]]
        if src:
            y = c.choice(src)
            z = c.choice(m.inc[y])
            into = [w for w in m.names if z in m.can(w)]
            w = c.choice(into)
            m.inc[y] = [v for v in m.inc[y] if v != z]
            m.inc[w] = m.inc[w] + [z]
            for f in (y, w):
                if f not in m.missing:
                    p.write(f, m.text(f))
            return 'move {} from {} to {}'.format(z, y, w)
        return 'nothing'
    elif k == 'body':
        m.new_body(x)
    elif k == 'break':
        m.bad.add(x)
    elif k == 'repair':
        x = c.choice(sorted(m.bad | m.missing))
        m.bad.discard(x)
        m.missing.discard(x)
    elif k == 'remove' and x != 'main.dm':
        m.missing.add(x)
        if (p.src / x).exists():
            (p.src / x).unlink()
        return 'remove ' + x
    if x in m.missing:
        return 'nothing'
    if k == 'touch':
        p.touch(x)
    else:
        p.write(x, m.text(x))
    return '{} {}: {!r}'.format(k, x, m.text(x))


def compare(c, p, m, when):
    want = m.tree()
    got, labels = snapshot(p)
    c.eq([(n, lv) for n, lv, _, _, _ in got], want, 'documents and levels ' +
         when)
    q = Project(p.root, main='main.dm')
    q.open()
    fresh, flabels = snapshot(q)
    c.eq(got, fresh, 'documents compared to a fresh load ' + when)
    c.eq(labels, flabels, 'labels compared to a fresh load ' + when)
    c.eq(p.doc.doc_ids, [n for n, _ in want], 'doc_ids ' + when)
    return want


PARTS = [('history', prop, 600, 6000)]
