"""P04: tex commands mirror the tags, and groups are balanced."""
from .. import refmodel as rm
from ..project import one_doc
from . import common

RULE = ("Random documents of formatting tags, unknown tags, symbols, "
        "super/subscripts, inline code, verbatim, boxes and headings; the "
        "tex rendering is compared to a reference rendering (whitespace "
        "ignored outside of verbatim text) and its braces and environments "
        "are matched. Non-trivial: at least three elements.")


def braces(tex):
    """Depth of the unescaped braces at the end and the minimal depth."""
    depth = low = 0
    i = 0
    while i < len(tex):
        if tex[i] == '\\':
            i += 2
            continue
        if tex[i] == '{':
            depth += 1
        elif tex[i] == '}':
            depth -= 1
            low = min(low, depth)
        i += 1
    return depth, low


def prop(c):
    blocks = rm.blocks(c, hi=5, depth=2)
    src = rm.block_source(blocks)
    c.note(repr(src))
    if common.count_elements(blocks) >= 3:
        c.nontrivial(src)
    if has_bad_verb(blocks):
        from ..engine import Reject
        raise Reject()
    p, doc = one_doc(c.scratch, src, targets='txt')
    tex = str(doc.context['body'].tex)
    exp = rm.tex_blocks(blocks)
    c.eq(common.squeeze(tex), common.squeeze(exp), 'tex of {!r}'.format(src))
    for t in verbs(blocks):
        c.check(t in tex, lambda: 'tex of {!r} lacks the verbatim text {!r}'
                .format(src, t))


def verbs(blocks):
    for b in blocks:
        if b[0] == 'v':
            yield b[2]
        elif b[0] == 'box':
            yield from verbs(b[2])


def has_bad_verb(blocks):
    """Text with every delimiter of \\verb has no defined rendering"""
    src = rm.block_source(blocks)
    return all(d in src for d in '|!^') and (
        '@code' in src or '@v' in src) and rm_has_bad(blocks)


def rm_has_bad(blocks):
    def walk(nodes):
        for n in nodes:
            if isinstance(n, str):
                continue
            if n.name.lower() == 'code':
                if rm.tex_verb(''.join(n.children)) is None:
                    return True
            elif walk(n.children):
                return True
        return False
    for b in blocks:
        if b[0] == 'v' and rm.tex_verb(b[2]) is None:
            return True
        if b[0] == 'box' and rm_has_bad(b[2]):
            return True
        if b[0] in 'ph' and walk(b[-1]):
            return True
    return False


def balanced(c):
    """Text without braces and backslashes: the groups are balanced."""
    alphabet = [ch for ch in rm.gen.PLAIN if ch not in '\\{}']
    blocks = [b for b in rm.blocks(
        c, hi=6, depth=2, text=lambda: rm.gen.plain(c, alphabet=alphabet))
        if b[0] != 'v']
    src = rm.block_source(blocks)
    if '@code' in src:
        from ..engine import Reject
        raise Reject()
    c.note(repr(src))
    if common.count_elements(blocks) >= 3:
        c.nontrivial(src)
    p, doc = one_doc(c.scratch, src, targets='txt')
    tex = str(doc.context['body'].tex)
    c.eq(braces(tex), (0, 0), 'brace depth of {!r} ({!r})'.format(tex, src))


PARTS = [('exact', prop, 3000, 40000), ('balanced', balanced, 600, 8000)]


MATH_TEXT = list('xyz 012 +*=()') + ['\\frac{1}{2}', ' \\cdot ', '&', '\n']


def math_nodes(c, depth=2):
    def one():
        k = c.weighted([(5, 'text'), (2 if depth else 0, 'sup'),
                        (2 if depth else 0, 'sub'),
                        (1 if depth else 0, 'b'), (1, 'symbol'),
                        (1, 'supsub'), (1 if depth else 0, 'free'),
                        (1 if depth else 0, 'eq')])
        if k == 'text':
            return c.choice(MATH_TEXT)
        if k in ('sup', 'sub', 'b', 'eq'):
            return rm.Tag(k, '', math_nodes(c, depth - 1) or ['w'])
        if k == 'free':
            return rm.Tag('foo', '', math_nodes(c, depth - 1))
        if k == 'symbol':
            return rm.Tag('symbol', '', [c.choice(list(rm.SYMBOLS))])
        return rm.Tag('supsub', '', [c.choice('abc') + '&&' +
                                     c.choice('123')])
    out = rm.gen.merge(c.list(one, 1, 5))
    return out if rm.gen.source(out).strip() else ['x']


def math_tex(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
        elif n.name == 'sup':
            out.append('^{' + math_tex(n.children) + '}')
        elif n.name == 'sub':
            out.append('_{' + math_tex(n.children) + '}')
        elif n.name == 'b':
            out.append('\\textbf{' + math_tex(n.children) + '}')
        elif n.name == 'symbol':
            out.append('\\' + n.children[0])
        elif n.name == 'supsub':
            a, b = n.children[0].split('&&')
            out.append('^{' + a + '}_{' + b + '}')
        else:
            out.append(math_tex(n.children))
    return ''.join(out)


ENVS = {'': 'align*', 'env=align': 'align', 'env="align*"': 'align*',
        'env=alignat 3': 'alignat}{3', 'env="alignat*" 2': 'alignat*}{2'}
BAD_ENVS = ['env=document', 'env=equation', 'env="x}"', 'env=lstlisting']


def math(c):
    from disseminate.formats.tex import TexFormatError
    pars, expected = [], []
    bad = False

    def eq(block):
        nodes = math_nodes(c)
        name = c.choice(['eq', 'term', 'termb'])
        attrs = []
        tex = math_tex(nodes).strip()
        color = c.weighted([(3, None), (1, 'blue'), (1, 'red')])
        if color:
            attrs.append('color=' + color)
            tex = '\\textcolor{' + color + '}{' + tex + '}'
        if name == 'termb' or c.bool(0.15):
            if name != 'termb':
                attrs.append('bold')
            tex = '\\boldsymbol{' + tex + '}'
        env = ''
        if block:
            env = c.choice(list(ENVS))
            if env:
                attrs.insert(0, env)
            e = ENVS[env]
            tex = ('\\begin{' + e + '}%' + tex + '\\end{' +
                   e.split('}')[0] + '}')
        else:
            tex = '\\ensuremath{' + tex + '}'
        src = '@' + name
        if attrs:
            src += '[' + ' '.join(attrs) + ']'
        return src + '{' + rm.gen.source(nodes) + '}', tex

    for _ in range(c.int(1, 3)):
        if c.bool(0.4):
            s, t = eq(True)
        else:
            s, t = 't ', 't'
            for _ in range(c.int(1, 2)):
                a, b = eq(False)
                w = gen_word(c)
                s += a + ' ' + w + ' '
                t += b + w
        pars.append(s)
        expected.append(t)
    if c.bool(0.1):
        bad = True
        pars.append('@eq[' + c.choice(BAD_ENVS) + ']{x}')
    src = '\n\n'.join(['t'] + pars)
    c.note(repr(src))
    c.nontrivial(src)
    p, doc = one_doc(c.scratch, src, targets='txt')
    body = doc.context['body']
    try:
        tex = str(body.tex)
    except TexFormatError:
        c.check(bad, 'TexFormatError for {!r}'.format(src))
        return
    c.check(not bad, lambda: 'An environment that is not allowed was '
            'rendered: {!r} from {!r}'.format(tex, src))
    c.eq(common.squeeze(tex), 't' + common.squeeze(''.join(expected)),
         'tex of {!r}'.format(src))


def gen_word(c):
    return rm.gen.word(c)


PARTS.append(('math', math, 1500, 15000))
