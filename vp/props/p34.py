"""P34: contexts take changes by type, reset fully and never share state."""
import copy

from disseminate.context import BaseContext

RULE = ("Random histories of up to 14 operations on a family of up to five "
        "contexts (created with parents and initial values; set, nested "
        "changes, updates with dicts and headers, with and without "
        "overwriting, resets, filtered copies) with values of all types "
        "(text, truth values, numbers, lists, sets, nested dicts); after "
        "each one all contexts and all values given to them are compared to "
        "a reference model that copies everything. Non-trivial: three "
        "contexts, and a container that is changed after it was inherited.")


class Context(BaseContext):
    do_not_inherit = {'own'}
    exclude_from_reset = {'keep'}
    replace = {'rep'}


KEYS = {'list': ['l1', 'l2'], 'set': ['s1', 'rep'], 'dict': ['d1', 'd2'],
        'bool': ['b1'], 'int': ['i1'], 'float': ['f1'],
        'str': ['t1', 'own', 'keep'], 'rlist': []}
KIND = {k: t for t, ks in KEYS.items() for k in ks}
WORDS = ['one', 'two', 'x1', 'y2', 'zed']


def value(c, kind, depth=0):
    if kind == 'list':
        return [c.choice(WORDS) if depth or c.bool(0.8) else
                [c.choice(WORDS)] for _ in range(c.int(0, 3))]
    if kind == 'set':
        return set(c.subset(WORDS, 0.4))
    if kind == 'dict':
        out = {}
        for k in c.subset(['a', 'b', 'n', 'l', 's'], 0.5):
            if k == 'n':
                out[k] = value(c, 'dict', depth + 1) if depth < 2 else {}
            elif k == 'l':
                out[k] = value(c, 'list', 1)
            elif k == 's':
                out[k] = value(c, 'set')
            else:
                out[k] = c.choice(WORDS)
        return out
    if kind == 'bool':
        return c.bool()
    if kind == 'int':
        return c.int(-3, 30)
    if kind == 'float':
        return c.choice([0.5, 1.25, -3.0])
    return c.choice(WORDS)


def text(c, kind):
    """A value of a header and what it means: (text, value or None)."""
    if kind in ('list', 'set'):
        ws = c.subset(WORDS, 0.5) or ['one']
        sep = c.choice([', ', ',', '; ', ';', '\n'])
        if len(ws) == 1:
            return ws[0], ws
        return sep.join(ws), ws
    if kind == 'bool':
        v = c.bool()
        s = c.choice([str(v), str(v).lower(), ' ' + str(v).upper() + ' '])
        return (s, v) if c.bool(0.8) else (
            c.choice(['maybe', 'yes', '1', '0', 'no', 'Truely', '']), None)
    if kind == 'int':
        v = c.int(-5, 50)
        return (str(v), v) if c.bool(0.8) else (c.choice(
            ['x', '1.5', '1,5', '', '3rd', '5%', '3 4']), None)
    if kind == 'float':
        v = c.choice([0.25, 7.0, 3.0])
        return (str(v), v) if c.bool(0.8) else (c.choice(
            ['x', '1,5', '', '1.2.3', '5%', '2 5']), None)
    if kind == 'dict':
        v = {k: c.choice(WORDS) for k in c.subset(['a', 'b', 'q'], 0.6)}
        return '\n'.join('{}: {}'.format(*i) for i in v.items()), v
    v = c.choice(WORDS)
    return v, v


# -- reference

def update(d, changes, overwrite=True, replace=()):
    for k, v in changes.items():
        if k not in d:
            d[k] = copy.deepcopy(v)
            continue
        if not overwrite:
            continue
        old = d[k]
        if k in replace and isinstance(old, (list, set, dict)):
            old.clear()
        if isinstance(old, list):
            d[k] = list(copy.deepcopy(v)) + old
        elif isinstance(old, set):
            d[k] = old | set(v)
        elif isinstance(old, dict):
            update(old, v)
        else:
            d[k] = v


class Model:
    def __init__(self, parent, initial):
        self.parent = parent
        self.initial = copy.deepcopy(initial)
        self.d = {}
        self.reset()

    def reset(self):
        self.d = {k: v for k, v in self.d.items() if k == 'keep'}
        if self.parent is not None:
            self.update({k: v for k, v in self.parent.d.items()
                         if k != 'own'})
        self.update(self.initial)

    def update(self, changes, overwrite=True):
        update(self.d, changes, overwrite, replace={'rep'})


def as_changes(c, m, keys):
    """Changes as given and as they are meant, for a model."""
    given, meant = {}, {}
    for k in keys:
        kind = KIND[k]
        if c.bool(0.4) and k in m.d:
            s, v = text(c, kind)
            given[k] = s
            if v is None:
                continue
            meant[k] = v
        else:
            v = value(c, kind)
            given[k] = v
            meant[k] = copy.deepcopy(v)
    return given, meant


def plain(x):
    """Types and values, without the classes of contexts."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, set):
        return ('set', sorted(x))
    return (type(x).__name__, x)


def nested(d):
    """Containers within a value."""
    out = []
    todo = list(d.values())
    while todo:
        x = todo.pop(0)
        if isinstance(x, (list, dict, set)):
            out.append(x)
            todo += [] if isinstance(x, set) else \
                list(x.values()) if isinstance(x, dict) else list(x)
    return out


def change(x, w):
    if isinstance(x, list):
        x.append(w)
    elif isinstance(x, set):
        x.add(w)
    else:
        x['added'] = w


def prop(c):
    real, models = [], []
    given_to = []     # values given, which have to stay as they were
    deep = False

    def new():
        i = c.int(-1, len(real) - 1) if real else -1
        m = models[i] if i >= 0 else None
        keys = c.subset(sorted(KIND), 0.4)
        init = {k: value(c, KIND[k]) for k in keys}
        c.note('context {} (parent {}): {}'.format(
            len(real), i if i >= 0 else None, init))
        given_to.append((init, copy.deepcopy(init)))
        if i >= 0:
            real.append(Context(parent_context=real[i], **init))
        else:
            real.append(Context(**init) if c.bool() else Context(init))
        models.append(Model(m, init))

    def compare(what):
        for n, (r, m) in enumerate(zip(real, models)):
            c.eq(plain(dict(r)), plain(m.d), 'context {} after {}'.format(
                n, what))
        for g, want in given_to:
            c.eq(plain(g), plain(want), 'values given before, after ' + what,
                 key='given')

    new()
    compare('creation')
    for _ in range(c.int(2, 14)):
        op = c.weighted([(2, 'new'), (1, 'set'), (3, 'nested'),
                         (3, 'update'), (1, 'load'), (2, 'reset'),
                         (1, 'filter')])
        i = c.int(0, len(real) - 1)
        r, m = real[i], models[i]
        if op == 'new':
            if len(real) >= 5:
                continue
            new()
        elif op == 'set':
            k = c.choice(sorted(KIND))
            v = value(c, KIND[k])
            c.note('{}[{}] = {!r}'.format(i, k, v))
            r[k] = copy.deepcopy(v)
            m.d[k] = v
        elif op == 'nested':
            places = nested(m.d)
            if not places:
                continue
            n = c.int(0, len(places) - 1)
            w = c.choice(WORDS) + 'N'
            c.note('change of the container {} of {}: {}'.format(n, i, w))
            order = list(m.d)
            change(nested({k: m.d[k] for k in order})[n], w)
            change(nested({k: r[k] for k in order})[n], w)
            deep = True
        elif op == 'update':
            keys = c.subset(sorted(KIND), 0.4)
            given, meant = as_changes(c, m, keys)
            over = c.bool(0.8)
            use = c.subset(keys, 0.7) if c.bool(0.3) else None
            c.note('update of {}: {!r} (overwrite {}, keys {})'.format(
                i, given, over, use))
            # (values that aren't used clear the ones that are replaced)
            given_to.append((given, copy.deepcopy(given)))
            r.match_update(given, keys=use, overwrite=over)
            m.update({k: v for k, v in meant.items()
                      if use is None or k in use}, over)
        elif op == 'load':
            keys = [k for k in c.subset(sorted(KIND), 0.4) if k in m.d]
            lines, meant = [], {}
            for k in keys:
                s, v = text(c, KIND[k])
                lines.append('{}:{}'.format(k, (' ' + s) if '\n' not in s and
                             KIND[k] != 'dict' else ''.join(
                                 '\n  ' + x for x in s.split('\n') if x)))
                if v is not None:
                    meant[k] = v
            if not lines:
                continue
            src = '---\n' + '\n'.join(lines) + '\n---\nrest'
            c.note('load of {}: {!r}'.format(i, src))
            rest = r.load(src)
            c.eq(rest, 'rest', 'text after the header')
            m.update(meant)
        elif op == 'reset':
            c.note('reset of {}'.format(i))
            r.reset()
            m.reset()
        else:
            keys = c.subset(sorted(KIND), 0.5)
            c.note('filter of {}: {}'.format(i, keys))
            f = r.filter(keys)
            want = {k: copy.deepcopy(m.d[k]) for k in keys if k in m.d}
            c.eq(plain(dict(f)), plain(want), 'filtered copy')
            for x in nested(f):
                change(x, 'filtered')
        compare('operation {}'.format(op))
    if len(real) > 2 and deep:
        c.nontrivial([plain(dict(r)) for r in real])


PARTS = [('contexts', prop, 4000, 60000)]
