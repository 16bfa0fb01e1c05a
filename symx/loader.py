"""Loads /repo's current source into an instrumented module world (nothing is cached on disk)."""
import ast
import builtins
import importlib
import os
import sys
import types
import warnings

from . import core, shims

REPO = os.environ.get('SX_REPO', '/repo')


class _Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = []
        self.modname = modname

    def _call(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node), args=args, keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('__sx_mod__', [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node)
            return ast.copy_location(
                ast.Assign(targets=[node.target], value=self._call('__sx_mod__', [load, node.value], node)), node)
        return node

    def visit_BoolOp(self, node):
        # `x or 0` has the value of x when x is a number: no need to fork
        self.generic_visit(node)
        if isinstance(node.op, ast.Or) and len(node.values) == 2 and isinstance(node.values[1], ast.Constant) \
                and type(node.values[1].value) in (int, float) and node.values[1].value == 0:
            return self._call('__sx_or0__', node.values, node)
        return node

    def _loop(self, node):
        self.generic_visit(node)
        tick = ast.copy_location(ast.Expr(self._call('__sx_tick__', [], node)), node)
        node.body.insert(0, tick)
        return node

    visit_For = _loop
    visit_While = _loop

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call('set', [ast.copy_location(ast.List(elts=node.elts, ctx=ast.Load()), node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call('set', [ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)],
                          node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(ast.Name(id='Exception', ctx=ast.Load()), node)
        return node

    def visit_Return(self, node):
        # python wants a real bool from these
        self.generic_visit(node)
        if node.value is not None and self.stack and self.stack[-1] in ('__bool__', '__nonzero__', '__contains__'):
            node.value = self._call('bool', [node.value], node)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        q = '.'.join(self.stack)
        self.stack.pop()
        ent = ast.copy_location(ast.Expr(self._call(
            '__sx_enter__', [ast.copy_location(ast.Constant(self.modname + ':' + q), node)], node)), node)
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, ent)
        return node


def _or0(a, z):
    return a if isinstance(a, core.SymReal) else (a or z)


class World(object):
    """One instrumented copy of the gcodeutils package."""

    SHIMS = {'math': shims.math_shim, 'cmath': shims.cmath_shim, 'decimal': shims.decimal_shim,
             'datetime': shims.datetime_shim, 'logging': shims.logging_shim}

    def __init__(self, repo=None, extra_shims=None):
        self.repo = repo or REPO
        self.mods = {}
        self.seen = set()
        self.shimtab = dict(self.SHIMS)
        if extra_shims:
            self.shimtab.update(extra_shims)
        self.builtins = shims.make_builtins(self._import)

    def _tick(self):
        c = core.CTX
        if c is not None:
            c.ticks += 1
            if c.ticks > c.opts.get('max_ticks', 20000):
                raise core.StepLimit('loop iteration bound exceeded')

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            base = parts[:len(parts) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if name in self.shimtab:
            return self.shimtab[name]
        if name == 'gcodeutils' or name.startswith('gcodeutils.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and hasattr(m, '__path__'):
                        try:
                            self.load(name + '.' + f)
                        except ImportError:
                            pass
                return m
            return self.mods['gcodeutils']
        return builtins.__import__(name, None, None, fromlist, 0)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = None
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        path = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(path):
            src = os.path.join(path, '__init__.py')
            ispkg = True
        else:
            src = path + '.py'
            ispkg = False
        if not os.path.exists(src):
            raise ImportError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = src
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [path]
        self.mods[name] = m
        try:
            self.exec_file(src, m, name)
        except BaseException:
            del self.mods[name]
            raise
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def compile_file(self, src, name):
        with open(src, encoding='utf-8') as f:
            text = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(text, src)
            tree = _Tr(name).visit(tree)
            ast.fix_missing_locations(tree)
            return compile(tree, src, 'exec', dont_inherit=True)

    def exec_file(self, src, m, name):
        code = self.compile_file(src, name)
        g = m.__dict__
        g['__builtins__'] = self.builtins
        g['__sx_mod__'] = shims.sx_mod
        g['__sx_tick__'] = self._tick
        g['__sx_or0__'] = _or0
        g['__sx_enter__'] = self.seen.add
        exec(code, g)

    def script_globals(self):
        return {'__builtins__': self.builtins, '__sx_mod__': shims.sx_mod, '__sx_tick__': self._tick,
                '__sx_or0__': _or0, '__sx_enter__': self.seen.add, '__name__': '__script__'}

    def run_script(self, path, injected):
        code = self.compile_file(path, os.path.basename(path))
        g = self.script_globals()
        g.update(injected)
        exec(code, g)
        return g


class PlainWorld(object):
    """The same interface over the unmodified code (ordinary imports)."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.seen = set()
        if self.repo not in sys.path:
            sys.path.insert(0, self.repo)
        sys.dont_write_bytecode = True

    def load(self, name):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = importlib.import_module(name)
        assert os.path.abspath(m.__file__).startswith(os.path.abspath(self.repo)), m.__file__
        return m

    def run_script(self, path, injected):
        with open(path, encoding='utf-8') as f:
            code = compile(f.read(), path, 'exec', dont_inherit=True)
        g = {'__name__': '__script__'}
        g.update(injected)
        exec(code, g)
        return g
