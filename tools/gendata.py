#!/usr/bin/env python3
"""Development tool: copies published tables and fitted coefficients from a module of the library
into a TLA+ module, once.  The specification owns the copy; checks never run this."""
import re, sys
sys.path.insert(0, '/repo')


def tla(v):
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    if isinstance(v, str):
        return '"%s"' % v.replace('\xb0', ' deg').replace('\u03b2', 'beta').replace('"', "'")
    if v is None:
        return '"!none"'
    if isinstance(v, (bool,)):
        return 'TRUE' if v else 'FALSE'
    if hasattr(v, 'tolist'):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, complex):
        return '<<%s, %s>>' % (tla(v.real), tla(v.imag))
    return '"%r"' % v


def module(name, doc, items, out):
    with open(out, 'w') as f:
        f.write('---- MODULE %s ----\n\\* %s\n' % (name, doc))
        for n, v in items:
            s = tla(v)
            # break long lines
            o, line = [], ''
            for part in re.split(r', (?=["<\[])', s):
                if len(line) + len(part) > 160:
                    o.append(line); line = '  '
                line += part + ', '
            o.append(line[:-2])
            f.write('%s ==\n  %s\n' % (n, '\n'.join(o)))
        f.write('====\n')
