"""Executes /repo's *current* sources symbolically.

Every pystruct module is read from the working tree on each run, rewritten at
the AST level (exact literals, exact division, if-conversion of simple guarded
updates) and executed with a replaced numpy / third-party surface.  Cython
sources are parsed with Cython's own parser and lowered to Python with the
buffer semantics (dtype check, unchecked access) made explicit.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import os
import sys
import types
from fractions import Fraction

from . import sym as S
from . import arr as A
from . import npshim
from .hooks import HOOKS
from .sym import Sym, lift, EngineLimit

REPO = os.environ.get('VF_REPO', '/repo')
PKG = os.path.join(REPO, 'pystruct')

SOURCES = {}      # module name -> path, recorded for the evidence
EXECUTED = set()  # (module, qualname) of functions entered symbolically

# ------------------------------------------------------------ run-time helpers
_fcache = {}


def vf_f(s):
    r = _fcache.get(s)
    if r is None:
        v = float(s)
        if v in (S.INF, -S.INF) or v != v:
            r = Sym('f', v)
        else:
            r = Sym('f', Fraction(s))
        _fcache[s] = r
    return r


def _num(x):
    return isinstance(x, (int, float, bool)) and not isinstance(x, Sym)


def vf_div(a, b):
    if _num(a) and _num(b):
        return S._bin(a, b, lambda x, y: _div_py(x, y), 'truediv')
    return a / b


def _div_py(x, y):
    if not S.is_z3(y.v) and y.v == 0:
        raise ZeroDivisionError("division by zero")
    return S.div(x, y)


def vf_idiv(a, b):
    if _num(a) and _num(b):
        return vf_div(a, b)
    return operator.itruediv(a, b)


def _plain(x):
    if isinstance(x, Sym):
        if S.is_z3(x.v):
            raise _Symbolic
        return float(x.v) if x.k == 'f' else x.v
    if isinstance(x, A.SA):
        if x.any_sym() if x.dt.kind != 'O' else False:
            raise _Symbolic
    return x


class _Symbolic(Exception):
    pass


def vf_fmt(s, x):
    try:
        if isinstance(x, tuple):
            return s % tuple(_plain(v) for v in x)
        return s % _plain(x)
    except _Symbolic:
        return s


def vf_symb(c):
    """is this condition a symbolic truth value?"""
    if isinstance(c, A.SA) and c.ndim == 0 and c.dt.kind != 'O':
        c = c.a[()]
    return isinstance(c, Sym) and S.is_z3(c.v)


def vf_cond(c):
    if isinstance(c, A.SA):
        c = c.a[()]
    return S.cast(c, 'b')


def vf_and(g, c):
    if isinstance(c, A.SA) and c.ndim == 0:
        c = c.a[()]
    if isinstance(c, Sym):
        return S.band(g, S.cast(c, 'b'))
    return g if c else Sym('b', False)


def vf_not(g):
    return S.lnot(g)


def vf_can(f):
    try:
        f()
        return True
    except (NameError, AttributeError):
        return False


def _mergeable(a, b):
    la, lb = lift(a), lift(b)
    if la is not None and lb is not None:
        return True
    if isinstance(a, A.SA) and isinstance(b, A.SA):
        return a.shape == b.shape and a.dt.kind != 'O' and b.dt.kind != 'O'
    return False


def _merge(g, a, b):
    la, lb = lift(a), lift(b)
    if la is not None and lb is not None:
        return S.ite(g, la, lb)
    r = A.obj(a.shape)
    import numpy as rnp
    for i in rnp.ndindex(a.shape):
        r[i] = S.ite(g, a.a[i], b.a[i])
    return A.SA(r, rnp.result_type(a.dt, b.dt))._ck()


def _spec(g, f):
    """speculative evaluation: (ok, value)"""
    try:
        return True, f()
    except Exception:
        return False, None


def vf_sel(g, new, old):
    """value of a name assigned under guard g"""
    if not S.is_z3(g.v):
        return new() if g.v else old
    ok, v = _spec(g, new)
    if ok and v is old:
        return old
    if ok and _mergeable(v, old):
        if isinstance(v, A.SA):
            # rebinding, not writing through
            return _merge(g, v, old)
        return _merge(g, v, old)
    if bool(g):
        return new()
    return old


_IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul}
_OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul}


def vf_iop(g, op, x, e):
    """x op= e under guard g, returns the new binding"""
    if not S.is_z3(g.v):
        return _IOPS[op](x, e()) if g.v else x
    ok, v = _spec(g, e)
    if ok:
        if isinstance(x, A.SA) and not isinstance(v, A.MaskSel):
            ok2, r = _spec(g, lambda: _OPS[op](x, v))
            if ok2 and isinstance(r, A.SA) and r.shape == x.shape:
                try:
                    A.iassign(x, _merge(g, r, x))
                    return x
                except Exception:
                    pass
        elif lift(x) is not None:
            ok2, r = _spec(g, lambda: _OPS[op](x, v))
            if ok2 and _mergeable(r, x):
                return _merge(g, r, x)
    if bool(g):
        return _IOPS[op](x, e())
    return x


def vf_setitem(g, o, idx, e, op=None):
    if S.is_z3(g.v) and isinstance(o, A.SA):
        def new():
            old = o[idx]
            v = e()
            return old, (v if op is None else _OPS[op](old, v))
        ok, r = _spec(g, new)
        if ok:
            old, v = r
            if isinstance(old, A.SA):
                ok, vb = _spec(g, lambda: A.SA(
                    npshim.rnp.broadcast_to(A.asarray(v).a, old.shape),
                    A.asarray(v).dt))
                if ok and not isinstance(v, A.MaskSel):
                    o[idx] = _merge(g, vb, old)
                    return
            elif lift(old) is not None and lift(v) is not None:
                o[idx] = _merge(g, v, old)
                return
    if bool(g):
        if op is None:
            o[idx] = e()
        else:
            o[idx] = _IOPS[op](o[idx], e())


def vf_setattr(g, o, name, e, op=None):
    if S.is_z3(g.v):
        try:
            old = getattr(o, name)
        except AttributeError:
            old = None
        if old is not None:
            if op is None:
                setattr(o, name, vf_sel(g, e, old))
            else:
                setattr(o, name, vf_iop(g, op, old, e))
            return
    if bool(g):
        if op is None:
            setattr(o, name, e())
        else:
            setattr(o, name, _IOPS[op](getattr(o, name), e()))


def vf_ifexp(c, a, b):
    if not vf_symb(c):
        return a() if c else b()
    g = vf_cond(c)
    ok, va = _spec(g, a)
    if ok:
        ok, vb = _spec(g, b)
        if ok and (va is vb or _mergeable(va, vb)):
            return va if va is vb else _merge(g, va, vb)
    return a() if bool(g) else b()


# ------------------------------------------------------------ AST rewriting
_SAFE_NAMES = {'abs', 'max', 'min', 'float', 'int', 'len', 'bool', 'vf_f',
               '_vf_f', '_cy_flt'}
_SAFE_ATTRS = {'max', 'min', 'sum', 'dot', 'abs', 'maximum', 'minimum',
               'argmax', 'argmin', 'copy', 'any', 'all', 'ravel', 'int',
               'float', 'amax', 'amin', 'reshape', 'where'}


def _safe_expr(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr,
                          ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp, ast.Starred)):
            return False
        if isinstance(n, ast.BinOp) and isinstance(
                n.op, (ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in _SAFE_NAMES:
                continue
            if isinstance(f, ast.Attribute) and f.attr in _SAFE_ATTRS:
                continue
            return False
    return True


def _simple_target(t):
    return isinstance(t, (ast.Name, ast.Subscript, ast.Attribute)) and (
        isinstance(t, ast.Name) or _safe_expr(t))


def _mergeable_body(body):
    for s in body:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign):
            if len(s.targets) != 1 or not _simple_target(s.targets[0]) or \
                    not _safe_expr(s.value):
                return False
            continue
        if isinstance(s, ast.AugAssign):
            if not isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)) or \
                    not _simple_target(s.target) or not _safe_expr(s.value):
                return False
            continue
        if isinstance(s, ast.If):
            if not _safe_expr(s.test) or not _mergeable_body(s.body) or \
                    not _mergeable_body(s.orelse):
                return False
            continue
        return False
    return True


def _names_assigned(body):
    out = []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                if n.id not in out:
                    out.append(n.id)
            elif isinstance(n, ast.AugAssign) and \
                    isinstance(n.target, ast.Name) and \
                    n.target.id not in out:
                out.append(n.target.id)
    return out


def _name(n):
    return ast.Name(n, ast.Load())


def _call(f, *args):
    return ast.Call(_name(f), list(args), [])


def _lam(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, 'ctx') and n is t:
            n.ctx = ast.Load()
    return t


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.depth = 0     # function nesting

    def tmp(self):
        self.n += 1
        return '_vf_t%d' % self.n

    # -- scopes
    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self._block(node.body)
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.depth -= 1
        if self.depth >= 0:
            mark = ast.Expr(_call('_vf_enter', ast.Constant(node.name)))
            doc = 1 if (node.body and isinstance(node.body[0], ast.Expr) and
                        isinstance(node.body[0].value, ast.Constant)) else 0
            node.body.insert(doc, mark)
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def _block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def visit_For(self, node):
        node.body = _invert_continue(node.body)
        self.generic_visit(node)
        return node

    def visit_While(self, node):
        node.body = _invert_continue(node.body)
        self.generic_visit(node)
        return node

    # -- expressions
    def visit_Constant(self, node):
        if type(node.value) is float:
            return ast.copy_location(
                _call('_vf_f', ast.Constant(repr(node.value))), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Mod) and \
                isinstance(node.left, ast.Constant) and \
                isinstance(node.left.value, str):
            r = self.visit(node.right)
            return ast.copy_location(_call('_vf_fmt', node.left, r), node)
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(
                _call('_vf_div', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Div):
            t = _load(node.target)
            val = self.visit(node.value)
            t = self.visit(t)
            tgt = self.visit(node.target)
            return ast.copy_location(
                ast.Assign([tgt], _call('_vf_idiv', t, val)), node)
        self.generic_visit(node)
        return node

    def visit_IfExp(self, node):
        safe = self.depth > 0 and _safe_expr(node.body) and \
            _safe_expr(node.orelse)
        self.generic_visit(node)
        if safe:
            return ast.copy_location(
                _call('_vf_ifexp', node.test, _lam(node.body),
                      _lam(node.orelse)), node)
        return node

    # -- if-conversion
    def visit_If(self, node):
        if not (self.depth > 0 and _mergeable_body(node.body) and
                _mergeable_body(node.orelse) and
                (any(not isinstance(s, ast.Pass)
                     for s in node.body + node.orelse))):
            self.generic_visit(node)
            return node
        import copy
        c = self.tmp()
        body2 = copy.deepcopy(node.body)
        else2 = copy.deepcopy(node.orelse)
        names = _names_assigned(node.body + node.orelse)
        test = self.visit(node.test)
        assign = ast.Assign([ast.Name(c, ast.Store())], test)
        g = self.tmp()
        merged = [ast.Assign([ast.Name(g, ast.Store())],
                             _call('_vf_cond', _name(c)))]
        merged += self._guard(body2, g)
        if else2:
            gn = self.tmp()
            merged.append(ast.Assign([ast.Name(gn, ast.Store())],
                                     _call('_vf_not', _name(g))))
            merged += self._guard(else2, gn)
        can = _call('_vf_symb', _name(c))
        if names:
            can = ast.BoolOp(ast.And(), [can, _call(
                '_vf_can', _lam(ast.Tuple([_name(n) for n in names],
                                           ast.Load())))])
        plain = ast.If(_name(c), self._block(node.body) or [ast.Pass()],
                       self._block(node.orelse))
        out = ast.If(can, merged, [plain])
        for s in (assign, out):
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return [assign, out]

    def _guard(self, body, g):
        out = []
        for s in body:
            if isinstance(s, (ast.Pass, ast.Expr)):
                continue
            if isinstance(s, ast.Assign):
                t = s.targets[0]
                v = self.visit(s.value)
                if isinstance(t, ast.Name):
                    out.append(ast.Assign(
                        [t], _call('_vf_sel', _name(g), _lam(v),
                                   _name(t.id))))
                elif isinstance(t, ast.Subscript):
                    out.append(ast.Expr(_call(
                        '_vf_setitem', _name(g), self.visit(t.value),
                        self._idx(t.slice), _lam(v))))
                else:
                    out.append(ast.Expr(_call(
                        '_vf_setattr', _name(g), self.visit(t.value),
                        ast.Constant(t.attr), _lam(v))))
            elif isinstance(s, ast.AugAssign):
                t = s.target
                v = self.visit(s.value)
                op = ast.Constant(type(s.op).__name__)
                if isinstance(t, ast.Name):
                    out.append(ast.Assign(
                        [ast.Name(t.id, ast.Store())],
                        _call('_vf_iop', _name(g), op, _name(t.id),
                              _lam(v))))
                elif isinstance(t, ast.Subscript):
                    out.append(ast.Expr(_call(
                        '_vf_setitem', _name(g), self.visit(t.value),
                        self._idx(t.slice), _lam(v), op)))
                else:
                    out.append(ast.Expr(_call(
                        '_vf_setattr', _name(g), self.visit(t.value),
                        ast.Constant(t.attr), _lam(v), op)))
            elif isinstance(s, ast.If):
                g2 = self.tmp()
                c2 = self.tmp()
                out.append(ast.Assign([ast.Name(c2, ast.Store())],
                                      self.visit(s.test)))
                out.append(ast.Assign(
                    [ast.Name(g2, ast.Store())],
                    _call('_vf_and', _name(g), _name(c2))))
                out += self._guard(s.body, g2)
                if s.orelse:
                    g3 = self.tmp()
                    out.append(ast.Assign(
                        [ast.Name(g3, ast.Store())],
                        _call('_vf_and', _name(g),
                              _call('_vf_lnot', _name(c2)))))
                    out += self._guard(s.orelse, g3)
        return out

    def _idx(self, sl):
        if isinstance(sl, ast.Slice):
            return _call('slice', *[self.visit(x) if x is not None else
                                    ast.Constant(None)
                                    for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple):
            return ast.Tuple([self._idx(e) for e in sl.elts], ast.Load())
        return self.visit(sl)


def vf_lnot(c):
    if isinstance(c, A.SA) and c.ndim == 0:
        c = c.a[()]
    if isinstance(c, Sym):
        return S.lnot(S.cast(c, 'b'))
    return not c


def _invert_continue(body):
    """`if c: A; continue` followed by B  ->  `if c: A else: B`"""
    for i, s in enumerate(body):
        if isinstance(s, ast.If) and not s.orelse and s.body and \
                isinstance(s.body[-1], ast.Continue) and \
                not any(isinstance(n, (ast.Continue, ast.Break))
                        for q in s.body[:-1] for n in ast.walk(q)):
            rest = _invert_continue(body[i + 1:])
            if not rest:
                return body
            new = ast.If(s.test, s.body[:-1] or [ast.Pass()], rest)
            ast.copy_location(new, s)
            return body[:i] + [new]
    return body


# ------------------------------------------------------------ builtins
def _flat_args(a):
    if len(a) == 1:
        return list(a[0])
    return list(a)


def _minmax(fold, real):
    def f(*a, **k):
        if 'key' in k or not a:
            return real(*a, **k)
        xs = _flat_args(a)
        if not xs:
            return real(*a, **k)
        ls = []
        for x in xs:
            if isinstance(x, A.SA) and x.size == 1 and x.dt.kind != 'O':
                x = x.a.flat[0]
            s = lift(x)
            if s is None:
                return real(xs)
            ls.append(s)
        if not any(isinstance(x, (Sym, A.SA)) for x in xs):
            return real(xs)
        # Python's max compares Syms; keep kinds of the selected operand
        out = ls[0]
        for s in ls[1:]:
            if not S.is_z3(out.v) and not S.is_z3(s.v):
                out = real(out, s)
            else:
                out = fold(out, s)
        return out
    return f


def _sum(xs, start=0):
    out = start
    for x in xs:
        out = out + x
    return out


def _abs(x):
    return abs(x)


def _print(*a, **k):
    return None


def _round(x, nd=None):
    if isinstance(x, A.SA):
        x = x.item()
    return round(x, nd) if nd is not None else round(x)


_enter_mod = {}


def make_builtins(modname, extra=None):
    b = dict(vars(builtins))
    b['__import__'] = vf_import
    b['print'] = _print
    b['int'] = npshim.int
    b['float'] = npshim.float
    b['bool'] = npshim.bool
    b['max'] = _minmax(S.maxv, builtins.max)
    b['min'] = _minmax(S.minv, builtins.min)
    b['sum'] = _sum
    b['round'] = _round
    from . import stubs
    b['open'] = stubs.vopen
    b['_vf_f'] = vf_f
    b['_vf_div'] = vf_div
    b['_vf_idiv'] = vf_idiv
    b['_vf_fmt'] = vf_fmt
    b['_vf_symb'] = vf_symb
    b['_vf_cond'] = vf_cond
    b['_vf_and'] = vf_and
    b['_vf_not'] = vf_not
    b['_vf_lnot'] = vf_lnot
    b['_vf_can'] = vf_can
    b['_vf_sel'] = vf_sel
    b['_vf_iop'] = vf_iop
    b['_vf_setitem'] = vf_setitem
    b['_vf_setattr'] = vf_setattr
    b['_vf_ifexp'] = vf_ifexp

    def enter(name):
        EXECUTED.add(modname + ':' + name)
    b['_vf_enter'] = enter
    if extra:
        b.update(extra)
    return b


# ------------------------------------------------------------ imports
STUBS = {}


def vf_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split('.')[0]
        if root in HOOKS.replaced and root in sys.modules:
            m = sys.modules[root]
            if m is None:
                raise ImportError("No module named %r" % name)
            if not fromlist:
                return m
            for part in name.split('.')[1:]:
                m = getattr(m, part)
            return m
        if root in STUBS:
            m = STUBS[root]
            if m is None:
                raise ImportError("No module named %r" % name)
            if not fromlist:
                return m
            for part in name.split('.')[1:]:
                m = getattr(m, part)
            return m
        if root in _ABSENT:
            raise ImportError("No module named %r" % name)
    return builtins.__import__(name, globals, locals, fromlist, level)


_ABSENT = {'opengm', 'pyqpbo', 'matplotlib'}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'pystruct' and not fullname.startswith('pystruct.'):
            return None
        rel = fullname.split('.')[1:]
        base = os.path.join(PKG, *rel)
        if os.path.isdir(base) and os.path.exists(
                os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_loader(fullname, self,
                                                   is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + '.py'):
            p = base + '.py'
            spec = importlib.util.spec_from_loader(fullname, self)
        else:
            if fullname == 'pystruct.models.utils':
                p = os.path.join(REPO, 'src', 'utils.pyx')
            else:
                p = base + '.pyx'
            if not os.path.exists(p):
                return None
            spec = importlib.util.spec_from_loader(fullname, self)
        spec.origin = p
        spec.loader_state = p
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        p = mod.__spec__.loader_state
        mod.__file__ = p
        SOURCES[mod.__name__] = p
        with open(p, encoding='utf8') as f:
            src = f.read()
        extra = None
        if p.endswith('.pyx'):
            from . import cyparse
            tree = ast.parse(cyparse.to_python(src, mod.__name__, p))
            extra = cyparse.runtime()
        else:
            tree = ast.parse(src, p)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        mod.__dict__['__builtins__'] = make_builtins(mod.__name__, extra)
        code = compile(tree, p, 'exec')
        exec(code, mod.__dict__)


_installed = [False]


def install():
    """from now on `import pystruct` gives the symbolic rendering"""
    if _installed[0]:
        return
    from . import stubs
    STUBS.update(stubs.sym_modules())
    for m in list(sys.modules):
        if m == 'pystruct' or m.startswith('pystruct.'):
            raise RuntimeError('pystruct already imported')
    sys.meta_path.insert(0, Finder())
    _installed[0] = True
