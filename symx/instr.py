"""Load the nbc package from /repo's current source with every operation the proxies
cannot intercept by themselves routed through symx.models.  Regenerated on every run."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import engine, models

REPO = os.environ.get('VERIF_REPO', '/repo')
_SKIP = {'super', 'locals', 'globals', 'eval', 'exec', 'vars', 'dir', '__import__'}
_entered = None


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def _n(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])

    def _fn(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.body = [self.visit(s) for s in node.body]
        node.body = [x for s in node.body for x in (s if isinstance(s, list) else [s])]
        q = '.'.join(self.stack)
        self.stack.pop()
        ent = ast.Expr(self._n('__sx_enter__', ast.Constant('%s.%s' % (self.mod, q))))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, ent)
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _SKIP:
            return node
        return ast.Call(func=ast.Name(id='__sx_call__', ctx=ast.Load()), args=[node.func] + node.args, keywords=node.keywords)

    def _idx(self, sl):
        if isinstance(sl, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(func=ast.Name(id='__sx_slice__', ctx=ast.Load()),
                            args=[none(sl.lower), none(sl.upper), none(sl.step)], keywords=[])
        if isinstance(sl, ast.Tuple):
            return ast.Tuple(elts=[self._idx(e) for e in sl.elts], ctx=ast.Load())
        return sl

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._n('__sx_get__', node.value, self._idx(node.slice))
        return node

    # a[i] = v, including nested targets: rewrite simple statements only
    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        pre = []
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(ast.Call(func=ast.Name(id='__sx_set__', ctx=ast.Load()),
                                     args=[self.visit(t.value), self._idx(self.visit(t.slice)), node.value], keywords=[]))
        if any(self._has_sub(t) for t in node.targets):
            tmp = ast.Name(id='__sx_tmp__', ctx=ast.Store())
            out = [ast.Assign(targets=[tmp], value=node.value)]
            for t in node.targets:
                out += self._assign_to(t, ast.Name(id='__sx_tmp__', ctx=ast.Load()))
            return out
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def _has_sub(self, t):
        if isinstance(t, ast.Subscript):
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(self._has_sub(e) for e in t.elts)
        return False

    _ctr = 0

    def _assign_to(self, t, val):
        if isinstance(t, ast.Subscript):
            return [ast.Expr(ast.Call(func=ast.Name(id='__sx_set__', ctx=ast.Load()),
                                      args=[self.visit(t.value), self._idx(self.visit(t.slice)), val], keywords=[]))]
        if isinstance(t, (ast.Tuple, ast.List)) and self._has_sub(t):
            names, post = [], []
            elts = []
            for e in t.elts:
                if self._has_sub(e):
                    Tx._ctr += 1
                    nm = '__sx_tmp%d__' % Tx._ctr
                    elts.append(ast.Name(id=nm, ctx=ast.Store()))
                    post += self._assign_to(e, ast.Name(id=nm, ctx=ast.Load()))
                else:
                    elts.append(self.visit(e))
            return [ast.Assign(targets=[ast.Tuple(elts=elts, ctx=ast.Store())], value=val)] + post
        return [ast.Assign(targets=[self.visit(t)], value=val)]

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            t = node.target
            val = self.visit(node.value)
            op = type(node.op).__name__
            return ast.Expr(ast.Call(func=ast.Name(id='__sx_aug__', ctx=ast.Load()),
                                     args=[self.visit(t.value), self._idx(self.visit(t.slice)), ast.Constant(op), val], keywords=[]))
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign(targets=[node.target], value=self._n(
                '__sx_mod__', ast.Name(id=node.target.id, ctx=ast.Load()), self.visit(node.value)))
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(self._n('__sx_del__', self.visit(t.value), self._idx(self.visit(t.slice)))))
            else:
                out.append(ast.Delete(targets=[self.visit(t)]))
        return out

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._n('__sx_mod__', node.left, node.right)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._n('__sx_in__', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(op=ast.Not(), operand=c)
            return c
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            c = self._n('__sx_is__', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.IsNot):
                return ast.UnaryOp(op=ast.Not(), operand=c)
            return c
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return self._n('__sx_fstr__', ast.List(elts=parts, ctx=ast.Load()))

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(
                type=ast.Name(id='__sx_Abort__', ctx=ast.Load()), name=None, body=[ast.Raise()]))
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


_OPS = dict(Add=lambda a, b: a.__iadd__(b) if isinstance(a, (list, bytearray)) else a + b, Sub=lambda a, b: a - b,
            Mult=lambda a, b: a * b, Div=lambda a, b: a / b, Mod=models.mod,
            FloorDiv=lambda a, b: a // b, Pow=lambda a, b: a ** b, LShift=lambda a, b: a << b, RShift=lambda a, b: a >> b,
            BitOr=lambda a, b: a | b, BitXor=lambda a, b: a ^ b, BitAnd=lambda a, b: a & b)


def _aug(o, i, op, v):
    models.setitem(o, i, _OPS[op](models.getitem(o, i), v))


def _enter(name):
    p = engine.CUR
    if p is not None:
        p.stats.functions.add(name)


def _is(a, b):
    if b is True or b is False:
        if type(a) is models.SymBool:
            return a == b
    return a is b


HELPERS = dict(__sx_call__=models.call, __sx_get__=models.getitem, __sx_set__=models.setitem, __sx_del__=models.delitem,
               __sx_aug__=_aug, __sx_mod__=models.mod, __sx_in__=models.contains, __sx_fstr__=models.fstr,
               __sx_Abort__=engine.SxAbort, __sx_enter__=_enter, __sx_slice__=slice, __sx_is__=_is)


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Tx(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, is_pkg):
        self.fullname, self.path, self.is_pkg = fullname, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read().decode('utf-8')
        module.__dict__.update(HELPERS)
        exec(transform(src, self.path, self.fullname), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'nbc' and not fullname.startswith('nbc.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        for p, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(p):
                spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, p, pkg), origin=p, is_package=pkg)
                if pkg:
                    spec.submodule_search_locations = [base]
                spec.has_location = True
                return spec
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    import six
    models.MODELS[six.int2byte] = models.m_int2byte
