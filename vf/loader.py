"""Import hook: loads the repository's modules from the current working tree, instrumented for symbolic execution.

The instrumentation is uniform and knows nothing about particular functions: every call `f(...)` becomes
`__vf_call__(f, ...)`, every decorator `@d` becomes `@__vf_deco__(d)`, and every function reports its entry."""
import ast
import importlib.abc
import importlib.util
import os
import sys
import types

from . import rt

REPO = os.environ.get('VF_REPO', '/repo')
TOP = {'logic', 'custom_batchrunner', 'main'}
NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', 'print', '__vf_call__', '__vf_deco__',
          '__vf_enter__'}
LOADED = {}


class Instrument(ast.NodeTransformer):
    def __init__(self, mod):
        self.stack = [mod]

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            return node
        new = ast.Call(func=ast.Name('__vf_call__', ast.Load()), args=[node.func] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def _func(self, node):
        self.stack.append(node.name)
        decos = [ast.copy_location(ast.Call(ast.Name('__vf_deco__', ast.Load()), [self.visit(d)], []), d)
                 for d in node.decorator_list]
        node.decorator_list = []
        self.generic_visit(node)
        node.decorator_list = decos
        probe = ast.Expr(ast.Call(ast.Name('__vf_enter__', ast.Load()), [ast.Constant('.'.join(self.stack))], []))
        body = node.body
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
            isinstance(body[0].value.value, str) else 0
        ast.copy_location(probe, body[0])
        node.body = body[:at] + [probe] + body[at:]
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_MatchClass(self, node):
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = Instrument(self.name).visit(ast.parse(src, self.path))
        ast.fix_missing_locations(tree)
        module.__dict__['__vf_call__'] = rt.call
        module.__dict__['__vf_deco__'] = rt.deco
        module.__dict__['__vf_enter__'] = rt.enter
        LOADED[self.name] = self.path
        exec(compile(tree, self.path, 'exec'), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in TOP:
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, p, loader=Loader(name, p),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            p = base + '.py'
            return importlib.util.spec_from_file_location(name, p, loader=Loader(name, p))
        return None


def install():
    sys.meta_path.insert(0, Finder())


class Mods:
    """Lazy access to the repository's modules (instrumented or native, depending on the process)."""
    def __getattr__(self, name):
        import importlib
        full = {'batch': 'custom_batchrunner', 'main': 'main'}.get(name, 'logic.' + name)
        m = importlib.import_module(full)
        setattr(self, name, m)
        return m

    def script(self, file):
        """Runs a script of the repository, the way `python FILE` does (instrumented if everything else is)."""
        path = os.path.join(REPO, file)
        if any(isinstance(f, Finder) for f in sys.meta_path):
            module = types.ModuleType('__main__')
            Loader(os.path.splitext(file)[0], path).exec_module(module)
        else:
            import runpy
            runpy.run_path(path, run_name='__main__')


# ------------------------------------------------------------------------------------- isolation between paths
CURRENT = None


class Isolation:
    """Restores mutable module-level and class-level state of the repository's modules between paths."""

    def __init__(self):
        self.snap = None

    def _containers(self):
        for name in list(sys.modules):
            if name.split('.')[0] not in TOP:
                continue
            m = sys.modules[name]
            if m is None:
                continue
            yield from self._ns(vars(m), m)
            for v in list(vars(m).values()):
                if isinstance(v, type) and (v.__module__ or '').split('.')[0] in TOP:
                    yield from self._ns(vars(v), v)

    def _ns(self, ns, owner):
        for k, v in list(ns.items()):
            if k.startswith('__'):
                continue
            if isinstance(v, (list, dict, set)):
                yield ('c', owner, k, v)
            elif isinstance(v, (int, float, str, tuple, type(None))) and not isinstance(v, type):
                yield ('v', owner, k, v)
            elif callable(v) and getattr(v, '__module__', '') and \
                    str(v.__module__).split('.')[0] in TOP:
                for d in list(getattr(v, '__defaults__', None) or ()) + \
                        list((getattr(v, '__kwdefaults__', None) or {}).values()):
                    if isinstance(d, (list, dict, set)):
                        yield ('c', owner, k, d)

    def take(self):
        import copy
        global CURRENT
        CURRENT = self
        self.snap = []
        for kind, owner, k, v in self._containers():
            self.snap.append((kind, owner, k, v, copy.copy(v)))
        self.names = {}
        for kind, owner, k, v in self._containers():
            self.names.setdefault(id(owner), (owner, set()))[1].add(k)

    def restore(self):
        if self.snap is None:
            return
        for kind, owner, k, v, saved in self.snap:
            if kind == 'v':
                if vars(owner).get(k, None) is not saved:
                    try:
                        setattr(owner, k, saved)
                    except (AttributeError, TypeError):
                        pass
                continue
            if kind == 'c':
                if isinstance(v, list):
                    v[:] = saved
                else:
                    v.clear()
                    v.update(saved)
                if vars(owner).get(k) is not v and k in vars(owner) and isinstance(vars(owner)[k], type(v)):
                    try:
                        setattr(owner, k, v)
                    except (AttributeError, TypeError):
                        pass
        rt.reset_caches()
        for name in list(sys.modules):
            if name.split('.')[0] in TOP and sys.modules[name] is not None:
                for v in list(vars(sys.modules[name]).values()):
                    if callable(v) and hasattr(v, 'cache_clear'):
                        v.cache_clear()
