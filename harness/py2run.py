"""Runs Python 2 source under Python 3: print statements, integer division, lists from
items()/keys()/values()/map/filter/zip/range, xrange and the like."""
import ast, functools, io, itertools, re, sys, tokenize, types


def div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    try:
        import numpy as np
        if np.issubdtype(np.asarray(a).dtype, np.integer) and np.issubdtype(np.asarray(b).dtype, np.integer):
            return a // b
    except ImportError:
        pass
    return a / b


class Fix(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('py2_div', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            src = ast.parse(ast.unparse(n.target), mode='eval').body
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name('py2_div', ast.Load()), [src, n.value], [])), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
            if n.func.attr in ('items', 'keys', 'values', 'iteritems', 'iterkeys', 'itervalues'):
                n.func.attr = n.func.attr.replace('iter', '', 1) if n.func.attr.startswith('iter') else n.func.attr
                return ast.copy_location(ast.Call(ast.Name('py2_list', ast.Load()), [n], []), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'next' and not n.args:
            return ast.copy_location(ast.Call(ast.Name('py2_next', ast.Load()), [n.func.value], []), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'has_key' and len(n.args) == 1:
            return ast.copy_location(ast.Compare(n.args[0], [ast.In()], [n.func.value]), n)
        if isinstance(n.func, ast.Name) and n.func.id in ('range', 'map', 'filter', 'zip', 'xrange'):
            n.func.id = 'range' if n.func.id == 'xrange' else n.func.id
            return ast.copy_location(ast.Call(ast.Name('py2_list', ast.Load()), [n], []), n)
        return n


def fix_prints(src):
    """print statements become calls"""
    lines = src.split('\n')
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l) + 1)
    pos = lambda p: start[p[0] - 1] + p[1]
    toks = [t for t in tokenize.generate_tokens(io.StringIO(src).readline) if t.type not in (tokenize.COMMENT, tokenize.NL)]
    edits, fresh = [], True
    for i, t in enumerate(toks):
        if fresh and t.type == tokenize.NAME and t.string == 'print':
            j, depth = i + 1, 0
            while toks[j].type not in (tokenize.NEWLINE, tokenize.ENDMARKER) and not (depth == 0 and toks[j].string == ';'):
                depth += (toks[j].string in '([{') - (toks[j].string in ')]}') if toks[j].type == tokenize.OP else 0
                j += 1
            arg = toks[i + 1:j]
            if arg and arg[0].string in ('=', '.'):
                pass
            elif not arg:
                edits.append((pos(t.start), pos(t.end), 'print()'))
            else:
                d = k = 0
                if arg[0].string == '(':
                    for k, a in enumerate(arg):
                        d += (a.string in '([{') - (a.string in ')]}') if a.type == tokenize.OP else 0
                        if d == 0:
                            break
                if not (arg[0].string == '(' and k == len(arg) - 1):  # not yet a call
                    text, extra = src[pos(arg[0].start):pos(arg[-1].end)], ''
                    if arg[-1].string == ',':
                        text, extra = src[pos(arg[0].start):pos(arg[-1].start)], ", end=' '"
                    if arg[0].string == '>>':
                        d = 0
                        for k, a in enumerate(arg):
                            if d == 0 and a.string == ',':
                                break
                            d += (a.string in '([{') - (a.string in ')]}') if a.type == tokenize.OP else 0
                        else:
                            k = len(arg)
                        extra += ', file=' + src[pos(arg[1].start):pos(arg[k - 1].end)]
                        text = src[pos(arg[k].end):pos(arg[-1].start if arg[-1].string == ',' and k < len(arg) - 1 else arg[-1].end)] if k < len(arg) else "''"
                    edits.append((pos(t.start), pos(arg[-1].end), 'print(%s%s)' % (text.strip(), extra)))
        fresh = t.type in (tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT) or t.string in (';', ':')
    for a, b, new in reversed(edits):
        src = src[:a] + new + src[b:]
    return src


for new, old in (('Queue', 'queue'), ('cPickle', 'pickle'), ('StringIO', 'io'), ('cStringIO', 'io'), ('ConfigParser', 'configparser')):
    if new not in sys.modules:
        sys.modules[new] = __import__(old)
for old, new in (('izip', zip), ('imap', map), ('ifilter', filter), ('izip_longest', itertools.zip_longest)):
    if not hasattr(itertools, old):
        setattr(itertools, old, new)


def load(path, name, main=False):
    with open(path) as f:
        src = f.read()
    src = re.sub(r'(?m)^(\s*except\s+[\w.]+|\s*except\s*\([^()]*\))\s*,\s*(\w+)\s*:', r'\1 as \2:', src)
    src = re.sub(r'(?m)^(\s*raise\s+[\w.]+)\s*,\s*(.+?)\s*$', r'\1(\2)', src)
    src = fix_prints(src)
    tree = ast.fix_missing_locations(Fix().visit(ast.parse(src, path)))
    m = types.ModuleType('__main__' if main else name)
    m.__file__ = path
    m.__dict__.update(py2_div=div, py2_list=list, py2_next=lambda x: x.next() if hasattr(x, 'next') else next(x), unicode=str, long=int, raw_input=input, basestring=str, reduce=functools.reduce, file=open,
                      cmp=lambda a, b: (a > b) - (a < b))
    if not main:
        sys.modules[name] = m
    exec(compile(tree, path, 'exec'), m.__dict__)
    return m
