"""Front end for Cython sources: Cython's own parser, lowered to ``ast``.

The types of C variables and the directives that change the meaning of a
function are attached to the function node (cy_types, cy_unchecked,
cy_nowrap, cy_cdivision).
"""
import ast

from .values import Undecided

BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div,
       "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow, "&": ast.BitAnd,
       "|": ast.BitOr, "^": ast.BitXor, "@": ast.MatMult,
       "<<": ast.LShift, ">>": ast.RShift}
CMP = {"<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE,
       "==": ast.Eq, "!=": ast.NotEq, "is": ast.Is, "is_not": ast.IsNot,
       "in": ast.In, "not_in": ast.NotIn}
CTYPES = {"double", "float", "int", "long", "Py_ssize_t", "bint", "size_t"}
ELEM = {"double": "f", "float": "f", "float64_t": "f", "DTYPE_t": "f",
        "int": "i", "long": "i", "int64_t": "i", "Py_ssize_t": "i",
        "intp_t": "i"}


def parse(path, text):
    from Cython.Compiler.TreeFragment import parse_from_strings
    from Cython.Compiler import Errors
    Errors.init_thread()
    tree = parse_from_strings("module", text)
    return Lower(path).module(tree)


def typ(node):
    """Type of a declaration: see Interp.coerce."""
    n = type(node).__name__
    if n == "CSimpleBaseTypeNode":
        if node.name in CTYPES:
            return node.name
        if node.name == "bool":
            return "bint"
        if node.name == "ndarray":
            return "ndarray"
        if node.name and node.name.endswith("float64_t"):
            return "double"
        return None
    if n == "TemplatedTypeNode":
        kind = typ_elem(node.positional_args[0]) if node.positional_args \
            else "f"
        ndim = 1
        if node.keyword_args is not None:
            for item in node.keyword_args.key_value_pairs:
                if str(item.key.value) == "ndim":
                    ndim = int(item.value.value)
        return (kind, ndim)
    if n == "MemoryViewSliceTypeNode":
        return (typ_elem(node.base_type_node), len(node.axes))
    if n == "CComplexBaseTypeNode":
        return typ(node.base_type)
    if n == "CConstOrVolatileTypeNode":
        return typ(node.base_type)
    return None


def typ_elem(node):
    n = type(node).__name__
    if n == "CComplexBaseTypeNode":
        return typ_elem(node.base_type)
    name = getattr(node, "name", None)
    if name in ELEM:
        return ELEM[name]
    if name and name.startswith("float"):
        return "f"
    if name and name.startswith("int"):
        return "i"
    raise Undecided("element type %s" % (name or n))


class Lower:
    def __init__(self, path):
        self.path = path
        self.types = {}

    def pos(self, new, old):
        p = getattr(old, "pos", None)
        ln, col = (p[1], p[2]) if p else (1, 0)
        new.lineno = new.end_lineno = ln
        new.col_offset = new.end_col_offset = col
        return new

    def module(self, tree):
        body = self.block(tree.body)
        m = ast.Module(body=body, type_ignores=[])
        ast.fix_missing_locations(m)
        m.cy_directives = dict(tree.directive_comments or {})
        for f in ast.walk(m):
            if isinstance(f, ast.FunctionDef):
                for k, v in m.cy_directives.items():
                    self.directive(f, k, v, False)
        return m

    def directive(self, f, name, value, override=True):
        attr = {"boundscheck": "cy_unchecked", "wraparound": "cy_nowrap",
                "cdivision": "cy_cdivision"}.get(name)
        if attr is None:
            return
        v = value if name == "cdivision" else not value
        if override or not hasattr(f, attr):
            setattr(f, attr, v)

    # -- statements
    def block(self, node):
        if node is None:
            return []
        if type(node).__name__ == "StatListNode":
            out = []
            for s in node.stats:
                out.extend(self.block(s))
            return out
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            raise Undecided("Cython statement %s (%s:%s)" % (
                type(node).__name__, self.path, node.pos[1]))
        r = m(node)
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        return [self.pos(x, node) if not hasattr(x, "lineno") else x
                for x in r]

    def body(self, node):
        return self.block(node) or [ast.Pass(lineno=1, col_offset=0)]

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_ExprStatNode(self, n):
        return ast.Expr(self.e(n.expr))

    def s_CImportStatNode(self, n):
        name = str(n.module_name)
        if name.startswith("cython"):
            name = "cython"
        return ast.Import([ast.alias(name, str(n.as_name) if n.as_name
                                     else None)])

    def s_FromCImportStatNode(self, n):
        names = []
        for item in n.imported_names:
            names.append(ast.alias(str(item[1]),
                                   str(item[2]) if item[2] else None))
        mod = str(n.module_name)
        if mod.startswith("libcpp"):
            return None
        return ast.ImportFrom(mod, names, n.relative_level or 0)

    def s_FromImportStatNode(self, n):
        names = [ast.alias(str(a), str(b.name) if str(b.name) != str(a)
                           else None) for a, b in n.items]
        lvl = n.module.level
        return ast.ImportFrom(str(n.module.module_name.value), names,
                              max(0, lvl or 0))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            name = str(n.rhs.module_name.value)
            tgt = str(n.lhs.name)
            return ast.Import([ast.alias(
                name, tgt if tgt != name else None)])
        return ast.Assign([self.target(n.lhs)], self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.target(x) for x in n.lhs_list],
                          self.e(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.target(n.lhs), BIN[n.operator](),
                             self.e(n.rhs))

    def s_CVarDefNode(self, n):
        t = typ(n.base_type)
        out = []
        for d in n.declarators:
            name = str(d.name)
            if t is not None:
                self.types[name] = t
            if d.default is not None:
                out.append(self.pos(ast.Assign(
                    [self.pos(ast.Name(name, ast.Store()), d)],
                    self.e(d.default)), d))
        return out

    def s_ReturnStatNode(self, n):
        return ast.Return(self.e(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.e(n.exc_type) if n.exc_type else None, None)

    def s_AssertStatNode(self, n):
        c = getattr(n, "condition", None) or n.cond
        return ast.Assert(self.e(c), None)

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause)
        for c in reversed(n.if_clauses):
            node = self.pos(ast.If(self.e(c.condition), self.body(c.body),
                                   orelse), c)
            orelse = [node]
        return orelse

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition), self.body(n.body),
                         self.block(n.else_clause))

    def s_ForInStatNode(self, n):
        return ast.For(self.target(n.target), self.e(n.iterator.sequence),
                       self.body(n.body), self.block(n.else_clause))

    def s_ForFromStatNode(self, n):
        raise Undecided("for-from loop")

    def s_CFuncDefNode(self, n):
        return self.function(n, n.declarator, str(n.declarator.base.name),
                             n.declarator.args,
                             "cpdef" if n.overridable else "cdef")

    def s_DefNode(self, n):
        return self.function(n, n, str(n.name), n.args, "def")

    def function(self, n, decl, name, args, kind):
        saved, self.types = self.types, {}
        params, defaults = [], []
        for a in args:
            pname = str(a.declarator.name) if a.declarator.name else \
                str(a.base_type.name)
            if a.declarator.name:
                t = typ(a.base_type)
                if t is not None:
                    self.types[pname] = t
            params.append(ast.arg(pname))
            if a.default is not None:
                defaults.append(self.e(a.default))
        spec = ast.arguments(posonlyargs=[], args=params, vararg=None,
                             kwonlyargs=[], kw_defaults=[], kwarg=None,
                             defaults=defaults)
        body = self.body(n.body)
        doc = getattr(n, "doc", None)
        if doc is not None:
            body.insert(0, self.pos(ast.Expr(ast.Constant(str(doc))), n))
        f = ast.FunctionDef(name, spec, body, [], None)
        f = self.pos(f, n)
        f.cy_types = self.types
        f.cy_kind = kind
        for d in (n.decorators or []):
            c = d.decorator
            fun = getattr(c, "function", None)
            if fun is not None and c.args:
                self.directive(f, str(fun.attribute), bool(c.args[0].value))
        self.types = saved
        return f

    # -- expressions
    def target(self, n):
        x = self.e(n)
        for y in ast.walk(x):
            pass
        return self.store(x)

    def store(self, x):
        if isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                self.store(y)
        if hasattr(x, "ctx"):
            x.ctx = ast.Store()
        return x

    def e(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            if hasattr(n, "operator") and hasattr(n, "operand1"):
                r = ast.BinOp(self.e(n.operand1), BIN[n.operator](),
                              self.e(n.operand2))
                return self.pos(r, n)
            raise Undecided("Cython expression %s (%s:%s)" % (
                type(n).__name__, self.path, n.pos[1]))
        return self.pos(m(n), n)

    def e_NameNode(self, n):
        return ast.Name(str(n.name), ast.Load())

    def e_IntNode(self, n):
        return ast.Constant(int(str(n.value).rstrip("lLuU"), 0))

    def e_FloatNode(self, n):
        return ast.Constant(float(str(n.value)))

    def e_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_EllipsisNode(self, n):
        return ast.Constant(Ellipsis)

    def e_UnicodeNode(self, n):
        return ast.Constant(str(n.value))

    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode
    e_BytesNode = e_UnicodeNode

    def e_TupleNode(self, n):
        return ast.Tuple([self.e(x) for x in n.args], ast.Load())

    def e_ListNode(self, n):
        return ast.List([self.e(x) for x in n.args], ast.Load())

    def e_AttributeNode(self, n):
        return ast.Attribute(self.e(n.obj), str(n.attribute), ast.Load())

    def e_IndexNode(self, n):
        return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())

    def opt(self, x):
        if x is None or type(x).__name__ == "NoneNode":
            return None
        return self.e(x)

    def e_SliceIndexNode(self, n):
        s = self.pos(ast.Slice(self.opt(n.start), self.opt(n.stop), None), n)
        return ast.Subscript(self.e(n.base), s, ast.Load())

    def e_SliceNode(self, n):
        return ast.Slice(self.opt(n.start), self.opt(n.stop),
                         self.opt(n.step))

    def e_SimpleCallNode(self, n):
        return ast.Call(self.e(n.function), [self.e(x) for x in n.args], [])

    def e_GeneralCallNode(self, n):
        pos = n.positional_args
        args = [self.e(x) for x in pos.args]
        kw = []
        if n.keyword_args is not None:
            for i in n.keyword_args.key_value_pairs:
                kw.append(ast.keyword(str(i.key.value), self.e(i.value)))
        return ast.Call(self.e(n.function), args, kw)

    def e_PrimaryCmpNode(self, n):
        ops, rights = [CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMP[c.operator]())
            rights.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, rights)

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.e(n.operand))

    def e_UnaryPlusNode(self, n):
        return ast.UnaryOp(ast.UAdd(), self.e(n.operand))

    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == "and" else ast.Or()
        return ast.BoolOp(op, [self.e(n.operand1), self.e(n.operand2)])

    def e_CondExprNode(self, n):
        t = getattr(n, "test", None) or n.condition
        return ast.IfExp(self.e(t), self.e(n.true_val), self.e(n.false_val))

    def e_TypecastNode(self, n):
        return self.e(n.operand)

    def e_DictNode(self, n):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs],
                        [self.e(i.value) for i in n.key_value_pairs])
