"""
Executes Cython sources symbolically: the .pyx is parsed with Cython's own parser on every run and re-emitted as
Python over a small runtime modelling what the C code does -- typed memoryviews without bounds checks, C integer
division, prange scheduling (iterations in any order, private scalars undefined on entry), C pointers to FFTW.
"""
import os, types
import numpy as np
from Cython.Compiler.TreeFragment import parse_from_strings
from . import engine

INTS = {'int', 'long', 'index', 'Py_ssize_t', 'ptrdiff_t', 'p_t', 'short', 'char', 'size_t', 'bint'}


class Unsupported(Exception):
    pass


class Emit:
    def __init__(self, tree, name):
        self.out, self.ind, self.name = [], 0, name
        self.ctypedefs = {}
        self.cints = [set()]
        self.tmp = 0
        self.cdiv = [False]
        self.stat(tree.body if hasattr(tree, 'body') else tree)

    # ---- helpers
    def w(self, s):
        self.out.append('    '*self.ind + s)

    def block(self, n, extra=()):
        self.ind += 1
        k = len(self.out)
        for e in extra:
            self.w(e)
        self.stat(n)
        if len(self.out) == k:
            self.w('pass')
        self.ind -= 1

    def base(self, t):
        """(kind, detail) of a declared base type: int / dtype / mv(ndim, contig) / obj"""
        n = type(t).__name__
        if n in ('CQualifierTypeNode', 'CConstOrVolatileTypeNode', 'CConstTypeNode'):
            return self.base(t.base_type)
        if n == 'MemoryViewSliceTypeNode':
            axes = t.axes
            c = False
            for i, a in enumerate(axes):
                st = a.step
                if st is not None and type(st).__name__ == 'IntNode' and int(st.value) == 1:
                    c = 'C' if i == len(axes)-1 else 'F'
            k, _ = self.base(t.base_type_node)
            return 'mv', (len(axes), c, k)
        if n == 'CSimpleBaseTypeNode':
            nm = t.name
            nm = self.ctypedefs.get(nm, nm)
            if nm in INTS or (nm is not None and getattr(t, 'is_basic_c_type', False) and nm == 'int'):
                return 'int', getattr(t, 'signed', 1)
            if nm in ('float', 'double', 'dtype', 'complex'):
                return 'num', nm
            return 'obj', nm
        return 'obj', n

    def declname(self, d):
        while hasattr(d, 'base') and not hasattr(d, 'name'):
            d = d.base
        return d.name

    # ---- statements
    def stat(self, n):
        if n is None:
            return
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'{self.name}: statement {type(n).__name__} line {n.pos[1]}')
        return m(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_PassStatNode(self, n): self.w('pass')
    def s_CImportStatNode(self, n): pass
    def s_FromCImportStatNode(self, n):
        pass
    def s_FromImportStatNode(self, n):
        mod = n.module
        lev = mod.level if mod.level is not None and mod.level > 0 else 0
        name = mod.module_name.value
        for item, target in n.items:
            self.w(f'{target.name} = _vt.from_import({lev}, {str(name)!r}, {str(item)!r})')

    def s_CTypeDefNode(self, n):
        k, d = self.base(n.base_type)
        self.ctypedefs[self.declname(n.declarator)] = 'int' if k == 'int' else d
    def s_FusedTypeNode(self, n):
        self.ctypedefs[n.name] = 'dtype'

    def s_CVarDefNode(self, n):
        k, d = self.base(n.base_type)
        for decl in n.declarators:
            nm = self.declname(decl)
            if k == 'int' and type(decl).__name__ == 'CNameDeclaratorNode':
                self.cints[-1].add(nm)
            inner, default = decl, getattr(decl, 'default', None)
            while default is None and hasattr(inner, 'base') and not isinstance(inner.base, str):
                inner = inner.base
                default = getattr(inner, 'default', None)
            if default is not None:
                self.assign(nm, default, k, d)
            elif self.inclass:
                self.fields.append((nm, k, d))
            elif type(decl).__name__ == 'CNameDeclaratorNode' and k == 'int' and len(self.cints) > 1:
                self.w(f'{nm} = _vt.out({nm!r})')
            if k == 'mv':
                self.mvs[-1][nm] = d
    inclass = False
    fields = None
    mvs = [{}]

    def assign(self, nm, rhs, k, d):
        e = self.x(rhs)
        if k == 'mv':
            e = f'_vt.mv({e}, {d[0]}, {d[1]!r}, {nm!r})'
        self.w(f'{nm} = {e}')

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            self.w(f'{n.lhs.name} = _vt.importer({str(n.rhs.module_name.value)!r}, {str(n.lhs.name)!r})')
            return
        self.store(n.lhs, n.rhs)

    def store(self, lhs, rhs, val=None):
        v = self.x(rhs) if val is None else val
        if type(lhs).__name__ == 'NameNode' and lhs.name in self.mvs[-1]:
            d = self.mvs[-1][lhs.name]
            v = f'_vt.mv({v}, {d[0]}, {d[1]!r}, {lhs.name!r})'
        elif type(lhs).__name__ == 'NameNode' and lhs.name in self.cints[-1] and val is None and len(self.cints) > 1:
            v = f'_vt.cint({v})'
        self.w(f'{self.x(lhs)} = {v}')

    def s_CascadedAssignmentNode(self, n):
        self.tmp += 1
        t = f'_t{self.tmp}'
        self.w(f'{t} = {self.x(n.rhs)}')
        for l in n.lhs_list:
            self.store(l, None, t)

    def s_InPlaceAssignmentNode(self, n):
        if self.inpar and type(n.lhs).__name__ == 'NameNode':
            raise Unsupported(f'{self.name}: reduction variable in prange, line {n.pos[1]}')
        op = n.operator
        if op == '/' and self.isint(n.lhs) and self.isint(n.rhs):
            op = '//'
        l = self.x(n.lhs)
        self.w(f'{l} = {l} {op} ({self.x(n.rhs)})')

    def s_ExprStatNode(self, n):
        if type(n.expr).__name__ in ('UnicodeNode', 'StringNode', 'BytesNode'):
            return
        e = self.x(n.expr)
        if 'import_array' in e:
            return
        self.w(e)

    def s_ForInStatNode(self, n):
        seq = n.iterator.sequence
        tgt = self.x(n.target)
        fn = getattr(seq, 'function', None)
        if fn is not None and getattr(fn, 'name', None) == 'prange':
            args = ', '.join(self.x(a) for a in (seq.positional_args.args if hasattr(seq, 'positional_args') else seq.args))
            priv = sorted(self.assigned(n.body) | {tgt})
            self.w(f'for {tgt} in _vt.prange({args}):')
            self.inpar += 1
            self.block(n.body, [f'{v} = _vt.poison({v!r})' for v in priv if v != tgt])
            self.inpar -= 1
        else:
            self.w(f'for {tgt} in {self.x(seq)}:')
            self.block(n.body)
        if getattr(n, 'else_clause', None) is not None:
            self.w('else:'); self.block(n.else_clause)
    inpar = 0

    def assigned(self, n, acc=None):
        acc = set() if acc is None else acc
        t = type(n).__name__
        if t == 'SingleAssignmentNode' and type(n.lhs).__name__ == 'NameNode':
            acc.add(n.lhs.name)
        if t == 'ForInStatNode' and type(n.target).__name__ == 'NameNode':
            acc.add(n.target.name)
        for a in getattr(n, 'child_attrs', None) or []:
            v = getattr(n, a, None)
            for x in (v if isinstance(v, list) else [v]):
                if hasattr(x, 'child_attrs'):
                    self.assigned(x, acc)
        return acc

    def s_WhileStatNode(self, n):
        self.w(f'while {self.x(n.condition)}:'); self.block(n.body)
    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.w(('if ' if i == 0 else 'elif ') + self.x(c.condition) + ':')
            self.block(c.body)
        if n.else_clause is not None:
            self.w('else:'); self.block(n.else_clause)
    def s_RaiseStatNode(self, n):
        self.w('raise ' + (self.x(n.exc_type) if n.exc_type is not None else ''))
    def s_ReturnStatNode(self, n):
        self.w('return ' + (self.x(n.value) if n.value is not None else ''))
    def s_BreakStatNode(self, n): self.w('break')
    def s_ContinueStatNode(self, n): self.w('continue')
    def s_GILStatNode(self, n): self.stat(n.body)
    def s_AssertStatNode(self, n): self.w(f'assert {self.x(n.condition)}')
    def s_GlobalNode(self, n): self.w('global ' + ', '.join(n.names))

    def directives(self, decs):
        out = {}
        for d in decs or []:
            e = d.decorator
            f = getattr(e, 'function', None)
            if f is not None and type(f).__name__ == 'AttributeNode' and self.x(f.obj) == 'cython':
                out[f.attribute] = getattr(e.args[0], 'value', True)
        return out

    def func(self, n, name, args, body, star=None):
        names, pre = [], []
        self.cints.append(set()); self.mvs.append({})
        self.cdiv.append(bool(self.directives(getattr(n, 'decorators', None)).get('cdivision', False)))
        fields, inclass = self.fields, self.inclass
        self.inclass = False
        for a in args:
            nm = self.declname(a.declarator)
            k, d = self.base(a.base_type)
            if not nm:        # untyped argument: name is in the base type
                nm = a.base_type.name
                k = 'obj'
            if k == 'int':
                self.cints[-1].add(nm)
            if k == 'mv':
                self.mvs[-1][nm] = d
                pre.append(f'{nm} = _vt.mv({nm}, {d[0]}, {d[1]!r}, {nm!r})')
            df = a.default if getattr(a, 'default', None) is not None else getattr(a.declarator, 'default', None)
            names.append(nm + (f'={self.x(df)}' if df is not None else ''))
        self.w(f'def {name}({", ".join(names)}):')
        self.block(body, pre)
        self.inclass, self.fields = inclass, fields
        self.cints.pop(); self.mvs.pop(); self.cdiv.pop()
        self.w('')

    def s_DefNode(self, n):
        self.func(n, n.name, n.args, n.body)
    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        self.func(n, d.base.name, d.args, n.body)

    def s_CClassDefNode(self, n):
        bases = [self.x(b) for b in n.bases.args] if n.bases is not None else []
        self.w(f'class {n.class_name}({", ".join(bases) or "_vt.CClass"}):')
        self.inclass, self.fields = True, []
        self.block(n.body)
        self.ind += 1
        self.w('_vt_fields = {' + ', '.join(f'{f!r}: ({k!r}, {d!r})' for f, k, d in self.fields) + '}')
        self.ind -= 1
        self.inclass, self.fields = False, None
        self.w('')
    def s_PyClassDefNode(self, n):
        self.w(f'class {n.name}:'); self.block(n.body)

    # ---- expressions
    def isint(self, n):
        t = type(n).__name__
        if t == 'NameNode': return n.name in self.cints[-1]
        if t == 'IntNode': return True
        if t == 'TypecastNode': return self.base(n.base_type)[0] == 'int'
        if t in ('AddNode', 'SubNode', 'MulNode', 'DivNode', 'ModNode'):
            return self.isint(n.operand1) and self.isint(n.operand2)
        if t == 'IndexNode' and type(n.base).__name__ == 'AttributeNode' and n.base.attribute == 'shape':
            return False
        return False

    def x(self, n):
        t = type(n).__name__
        m = getattr(self, 'x_' + t, None)
        if m is None:
            raise Unsupported(f'{self.name}: expression {t} line {n.pos[1]}')
        return m(n)
    def x_NameNode(self, n): return str(n.name)
    def x_IntNode(self, n): return str(n.value)
    def x_FloatNode(self, n): return str(n.value)
    def x_BoolNode(self, n): return str(bool(n.value))
    def x_NoneNode(self, n): return 'None'
    def x_NullNode(self, n): return 'None'
    def x_UnicodeNode(self, n): return repr(str(n.value))
    x_StringNode = x_UnicodeNode
    x_IdentifierStringNode = x_UnicodeNode
    def x_BytesNode(self, n): return repr(bytes(n.value, 'latin1'))
    def x_AttributeNode(self, n): return f'{self.x(n.obj)}.{n.attribute}'
    def x_TupleNode(self, n):
        a = [self.x(v) for v in n.args]
        return '(' + ', '.join(a) + (',' if len(a) == 1 else '') + ')'
    def x_ListNode(self, n): return '[' + ', '.join(self.x(v) for v in n.args) + ']'
    def x_DictNode(self, n): return '{' + ', '.join(f'{self.x(i.key)}: {self.x(i.value)}' for i in n.key_value_pairs) + '}'
    def idx(self, n):
        t = type(n).__name__
        if t == 'SliceNode':
            f = lambda v: '' if type(v).__name__ == 'NoneNode' else self.x(v)
            return f'{f(n.start)}:{f(n.stop)}' + (f':{f(n.step)}' if f(n.step) else '')
        if t == 'TupleNode':
            return ', '.join(self.idx(v) for v in n.args) + (',' if len(n.args) == 1 else '')
        return self.x(n)
    def x_IndexNode(self, n): return f'{self.x(n.base)}[{self.idx(n.index)}]'
    def x_SliceIndexNode(self, n):
        f = lambda v: '' if v is None else self.x(v)
        return f'{self.x(n.base)}[{f(n.start)}:{f(n.stop)}]'
    def x_SimpleCallNode(self, n): return f'{self.x(n.function)}({", ".join(self.x(a) for a in n.args)})'
    def x_GeneralCallNode(self, n):
        a = [self.x(v) for v in n.positional_args.args]
        if n.keyword_args is not None:
            a += [f'{str(i.key.value)}={self.x(i.value)}' for i in n.keyword_args.key_value_pairs]
        return f'{self.x(n.function)}({", ".join(a)})'
    def bin(self, n): return f'({self.x(n.operand1)} {n.operator} {self.x(n.operand2)})'
    x_AddNode = x_SubNode = x_MulNode = x_PowNode = x_BitwiseOrNode = x_BitwiseAndNode = x_IntBinopNode = bin
    def x_PowNode(self, n): return f'({self.x(n.operand1)} ** {self.x(n.operand2)})'
    def x_DivNode(self, n):
        if n.operator == '//':
            op = '//'
        else:
            op = '//' if self.cdiv[-1] and self.isint(n.operand1) and self.isint(n.operand2) else '/'
        return f'({self.x(n.operand1)} {op} {self.x(n.operand2)})'
    def x_ModNode(self, n): return f'({self.x(n.operand1)} % {self.x(n.operand2)})'
    def x_UnaryMinusNode(self, n): return f'(-{self.x(n.operand)})'
    def x_UnaryPlusNode(self, n): return f'(+{self.x(n.operand)})'
    def x_NotNode(self, n): return f'(not {self.x(n.operand)})'
    def x_BoolBinopNode(self, n): return f'({self.x(n.operand1)} {n.operator} {self.x(n.operand2)})'
    def x_CondExprNode(self, n): return f'({self.x(n.true_val)} if {self.x(n.test)} else {self.x(n.false_val)})'
    def x_PrimaryCmpNode(self, n):
        op = n.operator.replace('_', ' ')
        s = f'{self.x(n.operand1)} {op} {self.x(n.operand2)}'
        c = n.cascade
        while c is not None:
            s += f' {c.operator} {self.x(c.operand2)}'
            c = c.cascade
        return f'({s})'
    def x_TypecastNode(self, n): return self.x(n.operand)
    def x_AmpersandNode(self, n): return f'_vt.addr({self.x(n.operand)})' if type(n.operand).__name__ != 'IndexNode' else f'_vt.addr({self.x(n.operand.base)}, {self.idx(n.operand.index)})'
    def x_GeneratorExpressionNode(self, n): raise Unsupported('generator')


class UB(Exception):
    """Undefined behaviour reached by the C code."""


class Poison:
    def __init__(self, name): self.name = name
    def _bad(self, *a): raise UB(f'use of {self.name} before it is set in a parallel iteration')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __lt__ = __index__ = __neg__ = __float__ = __bool__ = _bad


class Out:
    """C variable declared without a value (also usable as an output argument)."""
    def __init__(self, name): self.name, self.value = name, None
    def _bad(self, *a): raise UB(f'use of {self.name} before assignment')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __index__ = __lt__ = __bool__ = _bad


class MV:
    """Typed memoryview over an array, bounds checked by the model (the C code has the checks switched off)."""
    def __init__(self, a, rt, name):
        self.a, self.rt, self.name = a, rt, name
        self.shape = tuple(a.shape)

    def _key(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if len(k) != len(self.shape):
            return k, False
        full = True
        out = []
        for i, (v, n) in enumerate(zip(k, self.shape)):
            if isinstance(v, slice):
                full = False
                out.append(v)
                continue
            v = int(v)
            if not 0 <= v < n:
                raise UB(f'out of bounds access {self.name}[{k}] with shape {self.shape}')
            out.append(v)
        return tuple(out), full

    def __getitem__(self, k):
        k, full = self._key(k)
        v = self.a[k]
        if full:
            self.rt.access(self, k, False)
            return v
        return MV(v, self.rt, self.name)

    def __setitem__(self, k, v):
        k, full = self._key(k)
        if isinstance(v, MV):
            v = v.a
            if tuple(v.shape) != tuple(self.a[k].shape):
                raise ValueError('memoryview assignment between different extents')
        if full:
            self.rt.access(self, k, True)
            if isinstance(v, (Poison, Out)):
                v._bad()
        self.a[k] = v

    def __len__(self): return self.shape[0]
    def __array__(self, *a, **k): return np.asarray(self.a, *a, **k)
    def __getattr__(self, n): return getattr(self.a, n)
    def __iter__(self): return iter(self.a)
    def __neg__(self): return -self.a
    def _arr(self): return self.a


class Runtime:
    def __init__(self, importer, from_import):
        self.importer, self.from_import = importer, from_import
        self.par = None
        self.races = []
        rt = self

        class CClass:
            _vt_fields = {}
            def __setattr__(s, k, v):
                for c in type(s).__mro__:
                    f = c.__dict__.get('_vt_fields', {})
                    if k in f:
                        kind, d = f[k]
                        if kind == 'mv':
                            v = rt.mv(v, d[0], d[1], k)
                        elif kind == 'int':
                            v = rt.cint(v)
                        break
                object.__setattr__(s, k, v)
        self.CClass = CClass

    def mv(self, a, ndim, contig, name):
        if isinstance(a, MV):
            a = a.a
        if not hasattr(a, 'shape'):
            raise TypeError(f'{name}: not a buffer: {type(a)}')
        if len(a.shape) != ndim:
            raise ValueError(f'Buffer has wrong number of dimensions (expected {ndim}, got {len(a.shape)})')
        if contig and not contiguous(a):
            raise ValueError('ndarray is not C-contiguous')
        return MV(a, self, name)

    def cint(self, v):
        if isinstance(v, (bool, np.bool_)):
            return int(v)
        if isinstance(v, (int, np.integer)):
            if not -2**31 <= int(v) < 2**31 and not -2**63 <= int(v) < 2**63:
                raise OverflowError
            return int(v)
        return v

    def out(self, name): return Out(name)
    def poison(self, name): return Poison(name)
    def addr(self, v, *i): return v

    def access(self, mv, k, write):
        if self.par is None:
            return
        b = base_of(mv.a)
        key = (b, flat(mv.a, k))
        it = self.par['it']
        for (o, w) in self.par['log'].get(key, ()):
            if o != it and (w or write):
                raise UB(f'data race on {mv.name}{list(k)} between parallel iterations {o} and {it}')
        self.par['log'].setdefault(key, set()).add((it, write))

    def prange(self, *a):
        if self.par is not None:
            raise Unsupported('nested prange')
        order = list(range(*a))
        self.par = {'it': None, 'log': {}}
        try:
            for i in order[::-1]:        # any schedule is allowed; independence makes the order irrelevant
                self.par['it'] = i
                yield i
        finally:
            self.par = None


def contiguous(a):
    f = getattr(a, 'flags', None)
    if f is not None:
        try:
            return bool(f['C_CONTIGUOUS'])
        except Exception:
            pass
    return True


def base_of(a):
    while getattr(a, 'base', None) is not None:
        a = a.base
    return id(a)


def flat(a, k):
    if isinstance(a, np.ndarray):
        return a.__array_interface__['data'][0] + sum(i*s for i, s in zip(k, a.strides))
    return (id(a), k)


def translate(path, name):
    with open(path) as f:
        src = f.read()
    src = src.replace('\t', '    ')
    tree = parse_from_strings(name.replace('.', '_'), src)
    e = Emit(tree, name)
    return '\n'.join(e.out) + '\n'


def load(path, name, package, overrides=None):
    """Module object with the translated code; `overrides`: names provided to it (C APIs, cimported modules)."""
    import importlib
    code = translate(path, name)
    overrides = overrides or {}

    def from_import(level, mod, item):
        if item in overrides:
            return overrides[item]
        m = importlib.import_module('.'*level + mod, package) if level else importlib.import_module(mod)
        if hasattr(m, item):
            return getattr(m, item)
        return importlib.import_module(('.'*level + mod + '.' if mod else '.'*level) + item, package)

    def importer(mod, as_name):
        if as_name in overrides:
            return overrides[as_name]
        return importlib.import_module(mod)
    m = types.ModuleType(name)
    rt = Runtime(importer, from_import)
    m.__dict__.update(overrides)
    m.__dict__.update(_vt=rt, prange=rt.prange)
    m.__dict__['__name__'] = name
    exec(compile(code, path, 'exec'), m.__dict__)
    m._vt_source = code
    return m
