"""Cython front end: a .pyx file -> functions for the verification-condition generator.

Mechanical and purely textual: declarations without code (cimport, `cdef extern` blocks, ctypedef, C fields) are
dropped, the types in the remaining `cdef` lines are dropped except that assignments to typed C integers keep the
conversion, C globals become attributes of the object G, `&x[k]` becomes c_index(x, k) and `deref` c_deref.
A line it does not know raises Unsupported."""
from __future__ import annotations
import ast, re, sys, types
from .interp import _mod_ast
from .values import Unsupported
from . import cxx

INTS = {'size_t': 'unsigned long', 'int': 'int', 'long': 'long', 'unsigned long': 'unsigned long', 'uint64_t': 'unsigned long',
        'int64_t': 'long', 'unsigned int': 'unsigned int', 'long long': 'long long', 'unsigned long long': 'unsigned long long',
        'short': 'short'}
TYPE = r'(?:unsigned\s+|const\s+)*[A-Za-z_][\w.]*(?:\s+long|\s+int)?(?:\[[^\]]*\])?\s*[*&]*'


def to_python(text):
    """-> (python text, names of C globals)"""
    out, glob = [], set()
    skip = None
    for raw in text.split('\n'):
        line = raw.rstrip()
        ind = len(line) - len(line.lstrip())
        s = line.strip()
        if skip is not None:
            if s and ind <= skip:
                skip = None
            else:
                m = re.match(r'cdef\s+(?!cppclass)(.*?)(\w+)$', s)
                if m:
                    glob.add(m.group(2))
                m = re.match(r'(?!cdef|ctypedef)(%s)\s+(\w+)$' % TYPE, s)
                if m:
                    glob.add(m.group(2))
                continue
        if re.match(r'(from\s+\S+\s+)?cimport\b', s) or s.startswith('ctypedef') or s.startswith('# cython') or s.startswith('# distutils'):
            continue
        if s.startswith('cdef extern'):
            skip = ind
            continue
        if s.startswith('@staticmethod') or s.startswith('@classmethod'):
            out.append(line)
            continue
        m = re.match(r'(cdef|cpdef)\s+class\s+(.*)$', s)
        if m:
            out.append(' ' * ind + 'class ' + m.group(2))
            continue
        m = re.match(r'(?:cdef|cpdef)\s+(?:inline\s+)?(?:%s\s+)?(\w+)\((.*)\)[^:]*:\s*$' % TYPE, s)
        if m:
            ps = []
            for p in [x.strip() for x in m.group(2).split(',') if x.strip()]:
                ps.append(re.sub(r'^%s\s*(?=\w+\s*(=|$))' % TYPE, '', p) if not re.match(r'^\w+(\s*:.*)?$', p) else p)
            out.append('%sdef %s(%s):' % (' ' * ind, m.group(1), ', '.join(ps)))
            continue
        m = re.match(r'cdef\s+(%s)\s*(\w+)\s*=\s*(.*)$' % TYPE, s)
        if m:
            t = ' '.join(m.group(1).split())
            v = m.group(3)
            out.append(' ' * ind + '%s = %s' % (m.group(2), 'c_cast(%r, %s)' % (INTS[t], v) if t in INTS else v))
            continue
        if re.match(r'cdef\s+%s\s*\w+$' % TYPE, s):
            continue
        if re.match(r'(cdef|cpdef)\b', s):
            raise Unsupported('Cython line ' + s)
        out.append(line)
    py = '\n'.join(out)
    py = re.sub(r'(?<=[(,=])\s*&\s*(\w+)\[([^\]]+)\]', r' c_index(\1, \2)', py)
    py = re.sub(r'(?<=[(,=])\s*&\s*([A-Za-z_]\w*)', r' \1', py)
    py = re.sub(r'\bderef\(', 'c_deref(', py)
    py = re.sub(r'\b(preincrement|inc)\(', 'c_incpre(', py)
    py = re.sub(r'\b(postincrement)\(', 'c_incpost(', py)
    py = re.sub(r'<(%s)>\s*' % TYPE, '', py)
    return py, glob


class Glob(ast.NodeTransformer):
    def __init__(self, glob):
        self.glob, self.bound = glob, []

    def visit_FunctionDef(self, n):
        decl = {x for s in ast.walk(n) if isinstance(s, ast.Global) for x in s.names}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in n.args.args}
        self.bound.append(loc - decl)
        n.body = [self.visit(s) for s in n.body]
        n.body = [s for s in n.body if s is not None] or [ast.Pass()]
        for a in n.args.args:
            a.annotation = None
        n.returns = None
        self.bound.pop()
        return n

    def visit_Global(self, n):
        n.names = [x for x in n.names if x not in self.glob]
        return n if n.names else ast.copy_location(ast.Pass(), n)

    def visit_Name(self, n):
        if n.id in self.glob and not any(n.id in b for b in self.bound):
            return ast.copy_location(ast.Attribute(value=ast.copy_location(ast.Name('G', ast.Load()), n), attr=n.id, ctx=n.ctx), n)
        return n


def translate(path, modname):
    py, glob = to_python(open(path, encoding='utf-8').read())
    tree = ast.fix_missing_locations(Glob(glob).visit(ast.parse(py, path)))
    text = ast.unparse(tree)
    m = types.ModuleType(modname)
    m.__file__ = path + '.' + modname + '.py'
    m.__dict__.update(cxx.STUBS)
    m.G = cxx.GLOBALS
    exec(compile(text, m.__file__, 'exec'), m.__dict__)
    sys.modules[modname] = m
    tree = ast.parse(text, m.__file__)
    index = {}
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            index[n.name] = n
        if isinstance(n, ast.ClassDef):
            for x in n.body:
                if isinstance(x, ast.FunctionDef):
                    index[n.name + '.' + x.name] = x
    _mod_ast[m.__file__] = (tree, index, text)
    m.source, m.path = text, path
    return m
