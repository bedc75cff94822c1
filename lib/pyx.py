"""Cython sources -> Python `ast` (plus a few C nodes), using Cython's own parser.

Runs under the interpreter that has Cython; nothing is compiled."""
import ast, os, tempfile, warnings
from Cython.Compiler import Main, Options, Parsing, Errors, Symtab
from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner


class FrontError(Exception): pass


class CType:
    """kind: int/uint/float/complex/object/array/mv/ptr/struct/enum/fused/class/void"""
    def __init__(self, name, kind=None, ptr=0, mv=None, inner=None):
        self.name = name; self.ptr = ptr; self.mv = mv; self.inner = inner; self.dims = []

    def __repr__(self): return self.name + '*' * self.ptr + (self.mv or '')


class CVar(ast.stmt):
    _fields = ('name', 'ctype', 'value')


class CCast(ast.expr):
    _fields = ('ctype', 'value')


class CArrayCast(ast.expr):
    _fields = ('ctype', 'shape', 'value')


class CAddr(ast.expr):
    _fields = ('value',)


class CNull(ast.expr):
    _fields = ()


class CSizeof(ast.expr):
    _fields = ('ctype',)


class CEnum(ast.stmt):
    _fields = ('name', 'items')


class CClass(ast.stmt):
    _fields = ('name', 'bases', 'body', 'attrs')


class CImport(ast.stmt):
    """cimport: items [(name, asname)] or None"""
    _fields = ('module', 'level', 'items', 'asname')


class CFused(ast.stmt):
    _fields = ('name', 'types')


class CTypedef(ast.stmt):
    _fields = ('name', 'ctype')


class CStruct(ast.stmt):
    _fields = ('name', 'fields')


class _Ctx(Main.Context):
    incdir = None
    tmp = None

    def find_include_file(self, name, pos=None, source_path=None):
        if os.path.basename(name) == 'config.pxi': return self.tmp
        return os.path.join(self.incdir, name)


OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow, '<<': ast.LShift,
       '>>': ast.RShift, '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor, '@': ast.MatMult}
CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, 'is': ast.Is, 'is_not': ast.IsNot,
       'in': ast.In, 'not_in': ast.NotIn, 'is not': ast.IsNot, 'not in': ast.NotIn}


class Conv:
    def __init__(self, path): self.path = path

    def at(self, node, n):
        try: node.lineno = n.pos[1]; node.col_offset = n.pos[2]
        except Exception: node.lineno = 0; node.col_offset = 0
        return node

    # -- types
    def ctype(self, base, decl=None):
        t = type(base).__name__
        if t == 'CConstOrVolatileTypeNode': return self.ctype(base.base_type, decl)
        if t == 'MemoryViewSliceTypeNode':
            inner = self.ctype(base.base_type_node)
            contig = any(getattr(a, 'step', None) is not None and type(a.step).__name__ == 'IntNode' for a in base.axes)
            r = CType(inner.name, mv='mv%d%s' % (len(base.axes), 'c' if contig else ''), inner=inner)
            r.axes = base.axes
        elif t == 'CSimpleBaseTypeNode':
            n = '.'.join(list(base.module_path) + [base.name or 'object'])
            if base.is_basic_c_type:
                if base.name == 'int':
                    n = {0: 'int', 1: 'long', 2: 'long long', -1: 'short'}.get(base.longness, 'int')
                if base.name == 'double' and base.longness: n = 'long double'
                if not base.signed: n = 'unsigned ' + n
                if base.complex: n += ' complex'
            r = CType(n)
        elif t == 'TemplatedTypeNode':
            r = self.ctype(base.base_type_node)
            r = CType(r.name)
        elif t == 'CNestedBaseTypeNode':
            b = self.ctype(base.base_type); r = CType(b.name + '.' + base.name)
        elif t == 'CComplexBaseTypeNode':
            return self.ctype(base.base_type, base.declarator)
        elif t == 'FusedTypeNode': r = CType('fused')
        else: raise FrontError('type ' + t)
        d = decl
        while d is not None:
            k = type(d).__name__
            if k in ('CPtrDeclaratorNode', 'CArrayDeclaratorNode'): r.ptr += 1
            if k == 'CArrayDeclaratorNode': r.dims = r.dims + [self.e(d.dimension)]
            d = getattr(d, 'base', None)
        return r

    def dname(self, d):
        while d is not None:
            if type(d).__name__ == 'CNameDeclaratorNode': return d
            d = getattr(d, 'base', None)
        raise FrontError('declarator')

    # -- expressions
    def e(self, n):
        if n is None: return None
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            if hasattr(n, 'operator') and hasattr(n, 'operand1') and n.operator in OPS:
                return self.at(ast.BinOp(self.e(n.operand1), OPS[n.operator](), self.e(n.operand2)), n)
            raise FrontError('%s:%s expression %s' % (self.path, n.pos[1:] if n.pos else '?', type(n).__name__))
        return self.at(m(n), n)

    def const(self, v): return ast.Constant(v)
    def e_NameNode(self, n): return ast.Name(str(n.name), ast.Load())
    def e_AttributeNode(self, n): return ast.Attribute(self.e(n.obj), str(n.attribute), ast.Load())
    def e_IntNode(self, n):
        from Cython.Utils import str_to_number
        return self.const(str_to_number(n.value))
    def e_FloatNode(self, n): return self.const(float(n.value))
    def e_ImagNode(self, n): return self.const(complex(0, float(n.value)))
    def e_StringNode(self, n): return self.const(str(n.unicode_value if getattr(n, 'unicode_value', None) is not None else n.value))
    def e_UnicodeNode(self, n): return self.const(str(n.value))
    e_IdentifierStringNode = e_StringNode
    def e_BytesNode(self, n): return self.const(n.value if isinstance(n.value, bytes) else n.value.encode('latin-1'))
    def e_CharNode(self, n): return self.const(ord(n.value))
    def e_NoneNode(self, n): return self.const(None)
    def e_BoolNode(self, n): return self.const(bool(n.value))
    def e_EllipsisNode(self, n): return self.const(Ellipsis)
    def e_NullNode(self, n): return CNull()
    def e_TupleNode(self, n): return ast.Tuple([self.e(x) for x in n.args], ast.Load())
    def e_ListNode(self, n): return ast.List([self.e(x) for x in n.args], ast.Load())
    def e_SetNode(self, n): return ast.Set([self.e(x) for x in n.args])
    def e_AsTupleNode(self, n): return ast.Call(ast.Name('tuple', ast.Load()), [self.e(n.arg)], [])
    def e_DictNode(self, n): return ast.Dict([self.e(i.key) for i in n.key_value_pairs], [self.e(i.value) for i in n.key_value_pairs])
    def e_SimpleCallNode(self, n): return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])
    def e_GeneralCallNode(self, n):
        args = []
        p = n.positional_args
        if type(p).__name__ == 'TupleNode': args = [self.e(a) for a in p.args]
        else: args = [ast.Starred(self.e(p), ast.Load())]
        kw = []
        k = n.keyword_args
        if k is not None:
            if type(k).__name__ == 'DictNode':
                for i in k.key_value_pairs: kw.append(ast.keyword(self.e(i.key).value, self.e(i.value)))
            elif type(k).__name__ == 'MergedDictNode':
                for x in k.keyword_args:
                    if type(x).__name__ == 'DictNode':
                        for i in x.key_value_pairs: kw.append(ast.keyword(self.e(i.key).value, self.e(i.value)))
                    else: kw.append(ast.keyword(None, self.e(x)))
            else: kw.append(ast.keyword(None, self.e(k)))
        return ast.Call(self.e(n.function), args, kw)
    def e_MergedSequenceNode(self, n):
        el = []
        for a in n.args:
            if type(a).__name__ in ('TupleNode', 'ListNode', 'SetNode'): el += [self.e(x) for x in a.args]
            else: el.append(ast.Starred(self.e(a), ast.Load()))
        return ast.List(el, ast.Load())
    def e_StarredUnpackingNode(self, n): return ast.Starred(self.e(n.target), ast.Load())
    def e_IndexNode(self, n): return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())
    def e_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))
    def e_SliceIndexNode(self, n): return ast.Subscript(self.e(n.base), ast.Slice(self.e(n.start), self.e(n.stop), None), ast.Load())
    def e_NotNode(self, n): return ast.UnaryOp(ast.Not(), self.e(n.operand))
    def e_UnaryMinusNode(self, n): return ast.UnaryOp(ast.USub(), self.e(n.operand))
    def e_UnaryPlusNode(self, n): return ast.UnaryOp(ast.UAdd(), self.e(n.operand))
    def e_TildeNode(self, n): return ast.UnaryOp(ast.Invert(), self.e(n.operand))
    def e_BoolBinopNode(self, n): return ast.BoolOp(ast.And() if n.operator == 'and' else ast.Or(), [self.e(n.operand1), self.e(n.operand2)])
    def e_CondExprNode(self, n): return ast.IfExp(self.e(n.test), self.e(n.true_val), self.e(n.false_val))
    def e_PrimaryCmpNode(self, n):
        ops = [CMP[n.operator]()]; cs = [self.e(n.operand2)]; c = n.cascade
        while c is not None: ops.append(CMP[c.operator]()); cs.append(self.e(c.operand2)); c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, cs)
    def e_TypecastNode(self, n):
        v = n.operand
        return CCast(self.ctype(n.base_type, n.declarator), self.e(v))
    def e_CythonArrayNode(self, n):
        bt = n.base_type_node
        shape = [self.e(a.stop) for a in bt.axes]
        return CArrayCast(self.ctype(bt), shape, self.e(n.operand))
    def e_AmpersandNode(self, n): return CAddr(self.e(n.operand))
    def e_SizeofTypeNode(self, n): return CSizeof(self.ctype(n.base_type, n.declarator))
    def e_JoinedStrNode(self, n): return ast.JoinedStr([self.e(v) for v in n.values])
    def e_FormattedValueNode(self, n):
        cc = getattr(n, 'conversion_char', None)
        return ast.FormattedValue(self.e(n.value), ord(cc) if cc else -1, self.e(n.format_spec) if n.format_spec is not None else None)
    def e_LambdaNode(self, n): return ast.Lambda(self.args(n.args, n.star_arg, n.starstar_arg), self.e(n.result_expr))
    def e_AssignmentExpressionNode(self, n): raise FrontError(':=')
    def comp(self, loop):
        gens = []; cur = loop
        while True:
            k = type(cur).__name__
            if k == 'ForInStatNode':
                gens.append(ast.comprehension(self.t(cur.target), self.e(cur.iterator.sequence), [], 0)); cur = cur.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.e(cur.if_clauses[0].condition)); cur = cur.if_clauses[0].body
            elif k == 'StatListNode' and len(cur.stats) == 1: cur = cur.stats[0]
            elif k == 'ExprStatNode': cur = cur.expr
            else: return gens, cur
    def e_ComprehensionNode(self, n):
        g, a = self.comp(n.loop)
        k = type(a).__name__
        if k == 'DictComprehensionAppendNode': return ast.DictComp(self.e(a.key_expr), self.e(a.value_expr), g)
        c = ast.ListComp(self.e(a.expr), g)
        if getattr(n.type, 'name', '') == 'set' or 'set' in str(n.type): return ast.SetComp(self.e(a.expr), g)
        return c
    def e_GeneratorExpressionNode(self, n):
        g, a = self.comp(n.loop)
        if type(a).__name__ == 'YieldExprNode': a = a.arg
        return ast.GeneratorExp(self.e(a), g)
    e_InlinedGeneratorExpressionNode = e_GeneratorExpressionNode

    def t(self, n):
        x = self.e(n)
        for y in ast.walk(x):
            if isinstance(y, (ast.Tuple, ast.List, ast.Starred)) or y is x:
                if hasattr(y, 'ctx'): y.ctx = ast.Store()
        if isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                if hasattr(y, 'ctx'): y.ctx = ast.Store()
        return x

    # -- statements
    def s(self, n):
        if n is None: return []
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None: raise FrontError('%s:%s statement %s' % (self.path, n.pos[1:] if n.pos else '?', type(n).__name__))
        r = m(n)
        if r is None: return []
        if not isinstance(r, list): r = [r]
        for x in r:
            if not hasattr(x, 'lineno'): self.at(x, n)
        return r

    def s_StatListNode(self, n): return [y for x in n.stats for y in self.s(x)]
    def s_ExprStatNode(self, n): return ast.Expr(self.e(n.expr))
    def s_PassStatNode(self, n): return ast.Pass()
    def s_GlobalNode(self, n): return ast.Global([str(x) for x in n.names])
    def s_NonlocalNode(self, n): return ast.Nonlocal([str(x) for x in n.names])
    def s_BreakStatNode(self, n): return ast.Break()
    def s_ContinueStatNode(self, n): return ast.Continue()
    def s_ReturnStatNode(self, n): return ast.Return(self.e(n.value))
    def s_AssertStatNode(self, n):
        v = getattr(n, 'value', None)
        return ast.Assert(self.e(n.condition), None)
    def s_DelStatNode(self, n):
        a = [self.e(x) for x in n.args]
        for x in a: x.ctx = ast.Del()
        return ast.Delete(a)
    def s_RaiseStatNode(self, n): return ast.Raise(self.e(n.exc_type) if n.exc_value is None else ast.Call(self.e(n.exc_type), [self.e(n.exc_value)], []), self.e(n.cause))
    def s_ReraiseStatNode(self, n): return ast.Raise(None, None)
    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            name = n.rhs.module_name.value
            a = str(n.lhs.name)
            top = str(name).split('.')[0]
            return ast.Import([ast.alias(str(name), a if a != top or '.' not in name else None)])
        return ast.Assign([self.t(n.lhs)], self.e(n.rhs))
    def s_CascadedAssignmentNode(self, n): return ast.Assign([self.t(l) for l in n.lhs_list], self.e(n.rhs))
    def s_ParallelAssignmentNode(self, n): return [y for x in n.stats for y in self.s(x)]
    def s_InPlaceAssignmentNode(self, n): return ast.AugAssign(self.t(n.lhs), OPS[n.operator](), self.e(n.rhs))
    def s_IfStatNode(self, n):
        els = self.s(n.else_clause)
        for c in reversed(n.if_clauses):
            x = ast.If(self.e(c.condition), self.s(c.body), els)
            self.at(x, c); els = [x]
        return els
    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if hasattr(it, 'sequence') else it
        return ast.For(self.t(n.target), self.e(seq), self.s(n.body), self.s(n.else_clause))
    def s_WhileStatNode(self, n): return ast.While(self.e(n.condition) if n.condition is not None else ast.Constant(True), self.s(n.body), self.s(n.else_clause))
    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            p = c.pattern
            ty = None
            if p: ty = self.e(p[0]) if len(p) == 1 else ast.Tuple([self.e(x) for x in p], ast.Load())
            h = ast.ExceptHandler(ty, str(c.target.name) if c.target is not None else None, self.s(c.body))
            hs.append(self.at(h, c))
        return ast.Try(self.s(n.body), hs, self.s(n.else_clause), [])
    def s_TryFinallyStatNode(self, n): return ast.Try(self.s(n.body), [], [], self.s(n.finally_clause))
    def s_WithStatNode(self, n):
        return ast.With([ast.withitem(self.e(n.manager), self.t(n.target) if n.target is not None else None)], self.s(n.body))
    def s_GILStatNode(self, n): return self.s(n.body)
    def s_FromImportStatNode(self, n):
        m = n.module
        return ast.ImportFrom(str(m.module_name.value), [ast.alias(str(a), str(b.name)) for a, b in n.items] or [ast.alias('*', None)], m.level if m.level and m.level > 0 else 0)
    def s_FromCImportStatNode(self, n):
        lvl = n.relative_level or 0
        return CImport(str(n.module_name or ''), lvl, [(str(a[1]), str(a[2] or a[1])) for a in n.imported_names], None)
    def s_CImportStatNode(self, n): return CImport(str(n.module_name), 0, None, str(n.as_name) if n.as_name else None)

    def args(self, args, star=None, ss=None):
        po, kwo, dflt, kwd = [], [], [], []
        for a in args:
            d = self.dname(a.declarator)
            name = str(d.name)
            ct = None
            bt = a.base_type
            if not name:                       # untyped argument: the name was read as a type
                name = str(bt.name)
            else: ct = self.ctype(bt, a.declarator)
            x = self.at(ast.arg(name, None), a)
            x.ctype = ct
            x.not_none = bool(getattr(a, 'not_none', False))
            dv = self.e(a.default) if a.default is not None else None
            if a.kw_only: kwo.append(x); kwd.append(dv)
            else:
                po.append(x)
                if dv is not None: dflt.append(dv)
        mk = lambda s: None if s is None else ast.arg(str(s.name), None)
        return ast.arguments([], po, mk(star), kwo, kwd, mk(ss), dflt)

    def fun(self, n, name, args, body, decos, ret=None, ckind='def'):
        f = ast.FunctionDef(str(name), args, self.s(body), [self.e(d.decorator) for d in decos or []], None)
        f.ret_ctype = ret; f.ckind = ckind
        return self.at(f, n)

    def s_DefNode(self, n): return self.fun(n, n.name, self.args(n.args, n.star_arg, n.starstar_arg), n.body, n.decorators)
    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode': d = d.base
        name = self.dname(d.base).name
        return self.fun(n, name, self.args(d.args), n.body, n.decorators, self.ctype(n.base_type, n.declarator), 'cpdef' if n.overridable else 'cdef')

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            nd = self.dname(d)
            x = d
            isf = False
            while x is not None:
                if type(x).__name__ == 'CFuncDeclaratorNode': isf = True
                x = getattr(x, 'base', None)
            if isf:
                x = CVar(str(nd.name), CType('cfunc'), None)
                fd = d
                while type(fd).__name__ != 'CFuncDeclaratorNode': fd = fd.base
                x.cargs = [self.ctype(a.base_type, a.declarator) for a in fd.args]
                x.cret = self.ctype(n.base_type, d)
            else:
                x = CVar(str(nd.name), self.ctype(n.base_type, d), self.e(nd.default))
            out.append(self.at(x, n))
        return out
    def s_CEnumDefNode(self, n): return CEnum(n.name and str(n.name), [(str(i.name), self.e(i.value)) for i in n.items])
    def s_CEnumDefItemNode(self, n): return None
    def s_CStructOrUnionDefNode(self, n):
        f = []
        for a in n.attributes or []: f += [(v.name, v.ctype) for v in self.s(a) if isinstance(v, CVar)]
        return CStruct(str(n.name), f)
    def s_CTypeDefNode(self, n):
        if type(n.base_type).__name__ == 'FusedTypeNode':
            return CFused(str(self.dname(n.declarator).name), [self.ctype(t) for t in n.base_type.types])
        return CTypedef(str(self.dname(n.declarator).name), self.ctype(n.base_type, n.declarator))
    def s_FusedTypeNode(self, n): return CFused(str(n.name), [self.ctype(t) for t in n.types])
    def s_CDefExternNode(self, n): return self.s(n.body)
    def s_PropertyNode(self, n):
        c = ast.ClassDef('%' + str(n.name), [], [], self.s(n.body), [])
        return self.at(c, n)
    def s_PyClassDefNode(self, n):
        bases = []
        b = n.bases
        if b is not None and type(b).__name__ == 'TupleNode': bases = [self.e(x) for x in b.args]
        return ast.ClassDef(str(n.name), bases, [], self.s(n.body), [])
    def s_CClassDefNode(self, n):
        b = n.bases
        bases = [self.e(x) for x in b.args] if b is not None else []
        return CClass(str(n.class_name), bases, self.s(n.body) if n.body is not None else [], None)
    def s_DocstringNode(self, n): return None


_WARNED = False


def parse(path, c99=1):
    """-> list of statements"""
    src = open(path, encoding='utf-8').read() if os.path.exists(path) else None
    if src is None: raise FrontError('anchor vanished: ' + path)
    tmp = tempfile.NamedTemporaryFile('w', suffix='.pxi', delete=False)
    tmp.write('DEF HAVE_C99_CPLX = %d\n' % c99); tmp.close()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            opts = Options.CompilationOptions(Options.default_options, language_level='3str')
            ctx = _Ctx.from_options(opts)
            ctx.incdir = os.path.dirname(path); ctx.tmp = tmp.name
            Errors.init_thread(); Errors.LEVEL = 99
            import io
            Errors.open_listing_file(None) if hasattr(Errors, 'open_listing_file') else None
            sd = FileSourceDescriptor(path)
            scope = Symtab.ModuleScope('m', None, ctx)
            with open(path, encoding='utf-8') as f:
                sc = PyrexScanner(f, sd, source_encoding='utf-8', scope=scope, context=ctx)
                with contextlib_redirect():
                    try: tree = Parsing.p_module(sc, path.endswith('.pxd'), 'pywt._extensions.m')
                    except Errors.CompileError as e: raise FrontError('%s does not parse: %s' % (path, e))
        return Conv(path).s(tree.body)
    finally: os.unlink(tmp.name)


def contextlib_redirect():
    import contextlib, io
    return contextlib.redirect_stderr(io.StringIO())


if __name__ == '__main__':
    for p in ('_dwt.pyx', '_swt.pyx', '_cwt.pyx', '_pywt.pyx', '_pywt.pxd', 'common.pxd', 'wavelet.pxd', 'c_wt.pxd', '_dwt.pxd', '_cwt.pxd'):
        b = parse('/repo/pywt/_extensions/' + p)
        print(p, len(b), [type(x).__name__ for x in b[:6]])
