from .. import gen


def count_elements(blocks):
    n = 0
    for b in blocks:
        n += 1
        if b[0] in ('p', 'h'):
            n += gen.count_tags(b[-1])
        elif b[0] == 'box':
            n += count_elements(b[2])
    return n


def squeeze(s):
    """Without any whitespace."""
    return ''.join(s.split())


def collapse(s):
    return ' '.join(s.split())
