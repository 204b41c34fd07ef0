#!/usr/bin/env python3
"""Expands infix arithmetic in specifications: in spec/src/*.tla, $[ expr ] is an expression in
ordinary notation (Python syntax: + - * / ** unary minus, comparisons, `x if c else y`, and/or/not,
a.b, f(x), s[i]); it becomes the same expression over the operators of R64.  Writes spec/*.tla."""
import ast, glob, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = dict(sqrt='Sqrt', cbrt='Cbrt', log='Ln', ln='Ln', log10='Log10', exp='Exp', sin='Sin', cos='Cos', tan='Tan', asin='Asin', acos='Acos', atan='Atan', atan2='Atan2',
         sinh='Sinh', cosh='Cosh', tanh='Tanh', floor='Floor', erf='Erf', lgamma='LnGamma', min='RMin', max='RMax', abs='Abs', sum='RSum')
OPS = {ast.Add: '++', ast.Sub: '--', ast.Mult: '**', ast.Div: '//', ast.Pow: '^^'}
CMP = {ast.Lt: '\\prec', ast.LtE: '\\preceq', ast.Gt: '\\succ', ast.GtE: '\\succeq', ast.Eq: 'REQ', ast.NotEq: 'RNE'}


def num(src, n):
    return '"%s"' % ast.get_source_segment(src, n)


def tr(n, src, top=True):
    p = lambda x: tr(x, src, False)
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name):
            s = '%s ** %s' % (p(n.left), p(n.left))
        else:
            s = '%s %s %s' % (p(n.left), OPS[type(n.op)], p(n.right))
        return s if top else '(' + s + ')'
    if isinstance(n, ast.UnaryOp):
        if isinstance(n.op, ast.USub):
            if isinstance(n.operand, ast.Constant):
                return '"-%s"' % num(src, n.operand).strip('"')
            return 'Neg(%s)' % tr(n.operand, src)
        if isinstance(n.op, ast.Not):
            return '(~%s)' % p(n.operand)
    if isinstance(n, ast.BoolOp):
        o = ' /\\ ' if isinstance(n.op, ast.And) else ' \\/ '
        return '(' + o.join(p(v) for v in n.values) + ')'
    if isinstance(n, ast.Compare):
        parts = []
        l = n.left
        for o, r in zip(n.ops, n.comparators):
            k = CMP[type(o)]
            a, b = p(l), p(r)
            parts.append('REq(%s, %s)' % (a, b) if k == 'REQ' else '~REq(%s, %s)' % (a, b) if k == 'RNE' else '(%s %s %s)' % (a, k, b))
            l = r
        return parts[0] if len(parts) == 1 else '(' + ' /\\ '.join(parts) + ')'
    if isinstance(n, ast.IfExp):
        return '(IF %s THEN %s ELSE %s)' % (tr(n.test, src), tr(n.body, src), tr(n.orelse, src))
    if isinstance(n, ast.Call):
        f = n.func.id
        if f in ('min', 'max') and len(n.args) > 2:
            s = p(n.args[0])
            for a in n.args[1:]:
                s = '%s(%s, %s)' % (F[f], s, tr(a, src))
            return s
        return '%s(%s)' % (F.get(f, f), ', '.join(tr(a, src) for a in n.args)) if n.args else F.get(f, f)
    if isinstance(n, ast.Name):
        return '"3.141592653589793"' if n.id == 'pi' else n.id
    if isinstance(n, ast.Constant):
        if isinstance(n.value, str):
            return '"%s"' % n.value
        if isinstance(n.value, bool):
            return str(n.value).upper()
        return num(src, n)
    if isinstance(n, ast.Attribute):
        return '%s.%s' % (p(n.value), n.attr)
    if isinstance(n, ast.Subscript):
        # indices are plain TLA+ integers or names
        i = n.slice
        ix = str(i.value) if isinstance(i, ast.Constant) else ast.unparse(i)
        return '%s[%s]' % (p(n.value), ix)
    raise ValueError(ast.dump(n))


def expand(text, name):
    out, i = [], 0
    while True:
        j = text.find('$[', i)
        if j < 0:
            out.append(text[i:])
            return ''.join(out)
        out.append(text[i:j])
        d, k = 1, j + 2
        while d:
            d += {'[': 1, ']': -1}.get(text[k], 0)
            k += 1
        e = ' '.join(text[j + 2:k - 1].split())
        try:
            t = tr(ast.parse(e, mode='eval').body, e)
        except Exception as ex:
            sys.exit('%s: %s in %r' % (name, ex, e))
        if t.startswith('"'):
            t = 'R(%s)' % t
        out.append('(' + t + ')' if not t.startswith(('(IF', 'R(')) else t)
        i = k


for p in sorted(glob.glob(os.path.join(HERE, 'spec', 'src', '*.tla'))):
    o = os.path.join(HERE, 'spec', os.path.basename(p))
    s = expand(open(p).read(), os.path.basename(p))
    if not os.path.exists(o) or open(o).read() != s:
        open(o, 'w').write(s)
