"""Lowers a Cython module to Python source, keeping the semantics that matter.

The tree comes from Cython's own parser.  C scalar declarations disappear
(values are exact), typed buffers / memoryviews become ``_cy_buf`` calls that
check dtype and dimension as the generated C code does, and give a view whose
element accesses follow the module's boundscheck / wraparound directives: with
the checks off, an access outside the buffer is a memory fault.
"""
import io
import sys
import warnings

from . import sym as S
from . import arr as A
from .sym import Sym, MemoryFault, EngineLimit
import numpy as rnp
import z3

_CINT = {'short': 'int16', 'int': 'int32', 'long': 'int64',
         'longlong': 'int64', 'uchar': 'uint8', 'char': 'int8',
         'uint': 'uint32', 'ulong': 'uint64', 'schar': 'int8',
         'Py_ssize_t': 'int64', 'size_t': 'uint64', 'npy_intp': 'int64',
         'intp_t': 'int64', 'int64_t': 'int64', 'int32_t': 'int32',
         'int16_t': 'int16', 'int8_t': 'int8', 'uint8_t': 'uint8',
         'uint16_t': 'uint16', 'uint32_t': 'uint32', 'uint64_t': 'uint64',
         'ushort': 'uint16', 'bint': 'int32', 'ulonglong': 'uint64',
         'npy_int64': 'int64', 'npy_int32': 'int32', 'int_t': 'int64'}
_CFLT = {'double': 'float64', 'float': 'float32', 'float64_t': 'float64',
         'float32_t': 'float32', 'npy_double': 'float64',
         'float_t': 'float64', 'double_t': 'float64'}


def _ctype(name, signed=1, longness=0):
    if name == 'int' and longness:
        name = {1: 'long', 2: 'longlong', -1: 'short'}[longness]
    if signed == 0 and name in ('char', 'int', 'long', 'short', 'longlong'):
        name = 'u' + name
    if name in _CINT:
        return _CINT[name]
    return _CFLT.get(name)


class Lower(object):
    def __init__(self, name):
        self.out = []
        self.ind = 0
        self.fused = {}
        self.typedefs = {}
        self.module = name
        self.directives = {}
        self.bufs = [{}]      # name -> spec, per function
        self.scal = [{}]

    # -- helpers
    def line(self, s):
        self.out.append('    ' * self.ind + s)

    def no(self, node):
        raise EngineLimit('cython construct %s in %s' %
                          (type(node).__name__, self.module))

    # -- types
    def scalar_dtypes(self, bt):
        n = type(bt).__name__
        if n == 'CSimpleBaseTypeNode':
            if bt.name in self.fused:
                return self.fused[bt.name]
            if bt.name in self.typedefs:
                return self.typedefs[bt.name]
            t = _ctype(bt.name, bt.signed, bt.longness)
            return (t,) if t else None
        if n == 'CConstTypeNode':
            return self.scalar_dtypes(bt.base_type)
        if n in ('NameNode',):
            t = self.fused.get(bt.name) or self.typedefs.get(bt.name) or \
                ((_ctype(bt.name),) if _ctype(bt.name) else None)
            return t
        if n == 'AttributeNode':
            t = _ctype(bt.attribute)
            return (t,) if t else None
        return None

    def buffer_of(self, bt):
        """(kind, dtypes, ndim, mode) if the type is a buffer"""
        n = type(bt).__name__
        if n == 'MemoryViewSliceTypeNode':
            dts = self.scalar_dtypes(bt.base_type_node)
            if dts is None:
                return None
            mode = None
            last = bt.axes[-1]
            if getattr(last, 'step', None) is not None and \
                    type(last.step).__name__ == 'IntNode':
                mode = 'c'
            return ('mv', dts, len(bt.axes), mode)
        if n == 'TemplatedTypeNode':
            base = bt.base_type_node
            if getattr(base, 'name', None) != 'ndarray':
                return None
            dt, nd, mode = None, 1, None
            for i, a in enumerate(bt.positional_args):
                if i == 0:
                    dt = a
                elif i == 1:
                    nd = int(a.value)
            if bt.keyword_args:
                for it in bt.keyword_args.key_value_pairs:
                    k = str(it.key.value)
                    if k == 'ndim':
                        nd = int(it.value.value)
                    elif k == 'dtype':
                        dt = it.value
                    elif k == 'mode':
                        mode = str(it.value.value)
            dts = self.scalar_dtypes(dt)
            if dts is None:
                dts = ()
            return ('nd', dts, nd, mode)
        return None

    def bufcall(self, name, val, spec):
        bc = self.directives.get('boundscheck', True)
        wa = self.directives.get('wraparound', True)
        return '_cy_buf(%r, %s, %r, %r, %r, %r, %r, %r)' % (
            name, val, spec[0], tuple(spec[1]), spec[2], spec[3], bool(bc),
            bool(wa))

    def decl_name(self, d):
        while type(d).__name__ != 'CNameDeclaratorNode':
            d = d.base
        return d

    # -- statements
    def stat(self, n):
        if n is None:
            return
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.no(n)
        m(n)

    def body(self, n):
        self.ind += 1
        k = len(self.out)
        self.stat(n)
        if len(self.out) == k:
            self.line('pass')
        self.ind -= 1

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_CImportStatNode(self, n):
        pass

    def s_FromCImportStatNode(self, n):
        pass

    def s_CTypeDefNode(self, n):
        name = self.decl_name(n.declarator).name
        bt = n.base_type
        if type(bt).__name__ == 'FusedTypeNode':
            dts = []
            for t in bt.types:
                d = self.scalar_dtypes(t)
                if d is None:
                    self.no(t)
                dts += list(d)
            self.fused[name] = tuple(dts)
        else:
            d = self.scalar_dtypes(bt)
            if d:
                self.typedefs[name] = d

    def s_FusedTypeNode(self, n):
        dts = []
        for t in n.types:
            d = self.scalar_dtypes(t)
            if d is None:
                self.no(t)
            dts += list(d)
        self.fused[n.name] = tuple(dts)

    def s_CVarDefNode(self, n):
        spec = self.buffer_of(n.base_type)
        dts = self.scalar_dtypes(n.base_type)
        for d in n.declarators:
            nm = self.decl_name(d)
            if spec:
                self.bufs[-1][nm.name] = spec
            elif dts:
                self.scal[-1][nm.name] = dts[0]
            if nm.default is not None:
                self.assign(nm.name, self.ex(nm.default))

    def assign(self, name, val):
        if name in self.bufs[-1]:
            val = self.bufcall(name, val, self.bufs[-1][name])
        elif self.scal[-1].get(name, '').startswith('float'):
            val = '_cy_flt(%s)' % val
        self.line('%s = %s' % (name, val))

    def s_CDefExternNode(self, n):
        pass

    def s_DefNode(self, n):
        self.func(n, n.name, n.args, n.body,
                  getattr(n, 'star_arg', None),
                  getattr(n, 'starstar_arg', None))

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        self.func(n, self.decl_name(d).name, d.args, n.body, None, None)

    def func(self, n, name, args, body, star, sstar):
        old = dict(self.directives)
        keep = []
        for dec in (getattr(n, 'decorators', None) or []):
            e = dec.decorator
            if type(e).__name__ in ('SimpleCallNode', 'GeneralCallNode') and \
                    type(e.function).__name__ == 'AttributeNode' and \
                    getattr(e.function.obj, 'name', '') == 'cython':
                if e.args and type(e.args[0]).__name__ == 'BoolNode':
                    self.directives[str(e.function.attribute)] = \
                        bool(e.args[0].value)
                continue
            if type(e).__name__ == 'AttributeNode' and \
                    getattr(e.obj, 'name', '') == 'cython':
                continue
            keep.append(self.ex(e))
        for k in keep:
            self.line('@' + k)
        ps, pre = [], []
        self.bufs.append({})
        self.scal.append({})
        for a in args:
            nd = self.decl_name(a.declarator)
            nm = nd.name
            spec = self.buffer_of(a.base_type)
            dts = None
            if nm == '':
                # untyped argument: the parser puts the name in the type
                nm = a.base_type.name
            else:
                dts = self.scalar_dtypes(a.base_type)
            dflt = a.default
            ps.append(nm + ('=' + self.ex(dflt) if dflt is not None else ''))
            if spec:
                self.bufs[-1][nm] = spec
                pre.append('%s = %s' % (nm, self.bufcall(nm, nm, spec)))
            elif dts:
                self.scal[-1][nm] = dts[0]
                if dts[0].startswith('float'):
                    pre.append('%s = _cy_flt(%s)' % (nm, nm))
        if star is not None:
            ps.append('*' + star.name)
        if sstar is not None:
            ps.append('**' + sstar.name)
        self.line('def %s(%s):' % (name, ', '.join(ps)))
        self.ind += 1
        # all buffer arguments are matched together (fused dispatch first)
        fz = [p for p in self.bufs[-1]
              if len(self.bufs[-1][p][1]) > 1]
        for p in fz:
            self.line('_cy_fused(%s, %r)' %
                      (p, tuple(self.bufs[-1][p][1])))
        for p in pre:
            self.line(p)
        self.ind -= 1
        self.body(body)
        self.bufs.pop()
        self.scal.pop()
        self.directives = old

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            mod = n.rhs.module_name.value
            self.line('import %s as %s' % (mod, n.lhs.name)
                      if '.' in mod or mod != n.lhs.name
                      else 'import %s' % mod)
            return
        if type(n.lhs).__name__ == 'NameNode':
            self.assign(n.lhs.name, self.ex(n.rhs))
        else:
            self.line('%s = %s' % (self.ex(n.lhs), self.ex(n.rhs)))

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value
        lvl = getattr(n.module, 'level', 0)
        lv = getattr(lvl, 'value', lvl)
        try:
            lv = max(int(lv), 0)
        except Exception:
            lv = 0
        self.line('from %s%s import %s' % ('.' * lv, mod, ', '.join(
            '%s as %s' % (a, t.name) for a, t in n.items)))

    def s_CascadedAssignmentNode(self, n):
        self.line('_cy_t = ' + self.ex(n.rhs))
        for l in n.lhs_list:
            if type(l).__name__ == 'NameNode':
                self.assign(l.name, '_cy_t')
            else:
                self.line('%s = _cy_t' % self.ex(l))

    def s_ParallelAssignmentNode(self, n):
        ts = []
        for i, s in enumerate(n.stats):
            self.line('_cy_p%d = %s' % (i, self.ex(s.rhs)))
        for i, s in enumerate(n.stats):
            if type(s.lhs).__name__ == 'NameNode':
                self.assign(s.lhs.name, '_cy_p%d' % i)
            else:
                self.line('%s = _cy_p%d' % (self.ex(s.lhs), i))

    def s_InPlaceAssignmentNode(self, n):
        self.line('%s %s= %s' % (self.ex(n.lhs), n.operator, self.ex(n.rhs)))

    def s_ExprStatNode(self, n):
        e = n.expr
        if type(e).__name__ in ('StringNode', 'UnicodeNode', 'BytesNode'):
            return
        txt = self.ex(e)
        if txt.endswith('import_array()'):
            return
        self.line(txt)

    def s_ForInStatNode(self, n):
        self.line('for %s in %s:' % (self.ex(n.target),
                                     self.ex(n.iterator.sequence)))
        self.body(n.body)
        if n.else_clause is not None:
            self.line('else:')
            self.body(n.else_clause)

    def s_ForFromStatNode(self, n):
        lo, hi = self.ex(n.bound1), self.ex(n.bound2)
        if n.relation1 not in ('<=', '<') or n.relation2 not in ('<=', '<'):
            self.no(n)
        if n.relation1 == '<':
            lo += ' + 1'
        if n.relation2 == '<=':
            hi += ' + 1'
        step = '' if n.step is None else ', ' + self.ex(n.step)
        self.line('for %s in range(%s, %s%s):' %
                  (self.ex(n.target), lo, hi, step))
        self.body(n.body)

    def s_WhileStatNode(self, n):
        self.line('while %s:' % self.ex(n.condition))
        self.body(n.body)
        if n.else_clause is not None:
            self.line('else:')
            self.body(n.else_clause)

    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.line('%s %s:' % ('elif' if i else 'if',
                                  self.ex(c.condition)))
            self.body(c.body)
        if n.else_clause is not None:
            self.line('else:')
            self.body(n.else_clause)

    def s_BreakStatNode(self, n):
        self.line('break')

    def s_ContinueStatNode(self, n):
        self.line('continue')

    def s_PassStatNode(self, n):
        self.line('pass')

    def s_ReturnStatNode(self, n):
        self.line('return' + ('' if n.value is None
                              else ' ' + self.ex(n.value)))

    def s_RaiseStatNode(self, n):
        self.line('raise' + ('' if n.exc_type is None
                             else ' ' + self.ex(n.exc_type)))

    def s_AssertStatNode(self, n):
        cond = getattr(n, 'cond', None) or n.condition
        self.line('assert ' + self.ex(cond))

    def s_GILStatNode(self, n):
        self.stat(n.body)

    def s_WithStatNode(self, n):
        txt = self.ex(n.manager)
        if txt in ('nogil', 'gil'):
            self.stat(n.body)
        else:
            self.no(n)

    # -- expressions
    def ex(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.no(n)
        return m(n)

    def e_NameNode(self, n):
        return str(n.name)

    def e_IntNode(self, n):
        return str(n.value).rstrip('lLuU')

    def e_FloatNode(self, n):
        return str(n.value)

    def e_BoolNode(self, n):
        return str(bool(n.value))

    def e_NoneNode(self, n):
        return 'None'

    def e_EllipsisNode(self, n):
        return '...'

    def e_StringNode(self, n):
        return repr(str(n.value))

    e_UnicodeNode = e_IdentifierStringNode = e_StringNode

    def e_BytesNode(self, n):
        return repr(str(n.value))

    def e_AttributeNode(self, n):
        return '%s.%s' % (self.ex(n.obj), n.attribute)

    def e_NotNode(self, n):
        return '(not %s)' % self.ex(n.operand)

    def e_UnaryMinusNode(self, n):
        return '(-%s)' % self.ex(n.operand)

    def e_UnaryPlusNode(self, n):
        return '(+%s)' % self.ex(n.operand)

    def e_TildeNode(self, n):
        return '(~%s)' % self.ex(n.operand)

    def _bin(self, n):
        return '(%s %s %s)' % (self.ex(n.operand1),
                               str(n.operator).replace('_', ' '),
                               self.ex(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = _bin
    e_PowNode = e_IntBinopNode = e_BoolBinopNode = e_NumBinopNode = _bin
    e_MatMultNode = e_BitwiseOrNode = _bin

    def e_PrimaryCmpNode(self, n):
        s = '(%s %s %s' % (self.ex(n.operand1),
                           str(n.operator).replace('_', ' '),
                           self.ex(n.operand2))
        c = n.cascade
        while c is not None:
            s += ' %s %s' % (str(c.operator).replace('_', ' '),
                             self.ex(c.operand2))
            c = c.cascade
        return s + ')'

    def e_CondExprNode(self, n):
        t = getattr(n, 'test', None) or n.condition
        return '(%s if %s else %s)' % (self.ex(n.true_val), self.ex(t),
                                       self.ex(n.false_val))

    def e_TupleNode(self, n):
        a = [self.ex(x) for x in n.args]
        return '(' + ', '.join(a) + (',)' if len(a) == 1 else ')')

    def e_ListNode(self, n):
        return '[' + ', '.join(self.ex(x) for x in n.args) + ']'

    def e_DictNode(self, n):
        return '{' + ', '.join('%s: %s' % (self.ex(i.key), self.ex(i.value))
                               for i in n.key_value_pairs) + '}'

    def e_SimpleCallNode(self, n):
        return '%s(%s)' % (self.ex(n.function),
                           ', '.join(self.ex(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        args = []
        if n.positional_args is not None:
            if type(n.positional_args).__name__ != 'TupleNode':
                self.no(n)
            args += [self.ex(a) for a in n.positional_args.args]
        if n.keyword_args is not None:
            for i in n.keyword_args.key_value_pairs:
                args.append('%s=%s' % (str(i.key.value), self.ex(i.value)))
        return '%s(%s)' % (self.ex(n.function), ', '.join(args))

    def e_IndexNode(self, n):
        idx = n.index
        if type(idx).__name__ == 'TupleNode':
            i = ', '.join(self.ex(x) for x in idx.args)
            if len(idx.args) == 1:
                i += ','
        else:
            i = self.ex(idx)
        return '%s[%s]' % (self.ex(n.base), i)

    def _opt(self, x):
        if x is None or type(x).__name__ == 'NoneNode':
            return ''
        return self.ex(x)

    def e_SliceNode(self, n):
        s = '%s:%s' % (self._opt(n.start), self._opt(n.stop))
        st = self._opt(n.step)
        return s + (':' + st if st else '')

    def e_SliceIndexNode(self, n):
        return '%s[%s:%s]' % (self.ex(n.base), self._opt(n.start),
                              self._opt(n.stop))

    def e_TypecastNode(self, n):
        v = self.ex(n.operand)
        d = self.scalar_dtypes(n.base_type)
        if d and d[0].startswith('float'):
            return '_cy_flt(%s)' % v
        if d and d[0].startswith(('int', 'uint')):
            return 'int(%s)' % v
        return v


def _tree(src, name):
    from Cython.Compiler import TreeFragment
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return TreeFragment.parse_from_strings(name, src)


def to_python(src, modname, path):
    tree = _tree(src, modname.split('.')[-1])
    lo = Lower(modname)
    lo.directives.update(getattr(tree, 'directive_comments', None) or {})
    lo.stat(tree.body)
    return '\n'.join(lo.out) + '\n'


# ------------------------------------------------------------- run time
class MV(A.SA):
    """typed view of an array"""
    __slots__ = ('bc', 'wa')

    def __init__(self, a, dt, w, bc, wa):
        A.SA.__init__(self, a, dt, w)
        self.bc = bc
        self.wa = wa

    def _guard(self, idx):
        comps = idx if isinstance(idx, tuple) else (idx,)
        out = []
        for ax, c in enumerate(comps):
            if isinstance(c, A.SA) and c.ndim == 0:
                c = c.a[()]
            if isinstance(c, Sym) or isinstance(c, (int, rnp.integer)):
                n = self.a.shape[ax] if ax < self.a.ndim else 0
                v = c.v if isinstance(c, Sym) else int(c)
                lo = -n if self.wa else 0
                if not S.is_z3(v):
                    inside = lo <= v < n
                else:
                    v = S.to_int(v)
                    inside = S.ctx().branch(z3.And(v >= lo, v < n))
                if not inside:
                    if self.bc:
                        raise IndexError(
                            'Out of bounds on buffer access (axis %d)' % ax)
                    raise MemoryFault(
                        'access outside the buffer (axis %d, size %d)' %
                        (ax, n))
            out.append(c)
        return tuple(out) if isinstance(idx, tuple) else out[0]

    def __getitem__(self, idx):
        return A.getitem(self, self._guard(idx))

    def __setitem__(self, idx, val):
        A.setitem(self, self._guard(idx), val)


def _dtn(x):
    return rnp.dtype(x.dt)


def _fused(x, dts):
    if isinstance(x, A.MaskSel):
        x = x.force()
    if not isinstance(x, A.SA) or _dtn(x).name not in dts:
        raise TypeError('No matching signature found')


_CN = {'float64': 'double', 'float32': 'float', 'int64': 'long',
       'int32': 'int', 'int16': 'short', 'int8': 'char', 'bool': 'bool',
       'object': 'Python object', 'uint8': 'unsigned char'}


def _buf(name, x, kind, dts, nd, mode, bc, wa):
    if isinstance(x, A.MaskSel):
        x = x.force()
    if x is None:
        return None
    if not isinstance(x, A.SA):
        if kind == 'nd':
            raise TypeError("Argument '%s' has incorrect type" % name)
        raise TypeError("a bytes-like object is required, not '%s'"
                        % type(x).__name__)
    if x.ndim != nd:
        raise ValueError('Buffer has wrong number of dimensions '
                         '(expected %d, got %d)' % (nd, x.ndim))
    n = _dtn(x).name
    if dts and n not in dts:
        raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'"
                         % (_CN.get(dts[0], dts[0]), _CN.get(n, n)))
    if kind == 'mv' and not (x._w and x.a.flags.writeable):
        raise ValueError('buffer source array is read-only')
    if mode == 'c' and x.a.size and not x.a.flags['C_CONTIGUOUS']:
        raise ValueError('ndarray is not C-contiguous')
    return MV(x.a, x.dt, x._w, bc, wa)


def _flt(x):
    s = S.lift(x)
    if s is None and isinstance(x, A.SA):
        s = S.lift(x.item())
    return S.cast(s, 'f') if s is not None else x


def runtime():
    return {'_cy_buf': _buf, '_cy_fused': _fused, '_cy_flt': _flt}
