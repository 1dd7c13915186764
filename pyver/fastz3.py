"""Cheaper bindings for the read-only z3 functions the verifier calls millions
of times.  They cannot fail on the terms z3 itself handed out, so the error
check after each call is left out, and `lit`-style tests ask the C library
directly."""
import z3
import z3.z3 as zz
import z3.z3core as zc

NAMES = ["Z3_get_ast_kind", "Z3_inc_ref", "Z3_dec_ref", "Z3_get_sort", "Z3_get_app_decl", "Z3_get_decl_kind", "Z3_get_ast_id",
         "Z3_get_sort_kind", "Z3_get_app_num_args", "Z3_get_app_arg", "Z3_is_finite_set_sort", "Z3_is_eq_ast", "Z3_get_ast_hash",
         "Z3_is_string", "Z3_is_numeral_ast", "Z3_is_eq_sort"]


def install():
    for n in NAMES:
        f = getattr(zc, n, None)
        if f is None or not hasattr(zz, n):
            continue
        raw = f.__defaults__[-1].f
        setattr(zz, n, raw)
    ast_kind, get_decl, decl_kind, nargs = zz.Z3_get_ast_kind, zz.Z3_get_app_decl, zz.Z3_get_decl_kind, zz.Z3_get_app_num_args
    APP, NUM = zz.Z3_APP_AST, zz.Z3_NUMERAL_AST

    def is_app(a):
        if not isinstance(a, zz.ExprRef):
            return False
        k = ast_kind(a.ctx.ctx, a.ast)
        return k == NUM or k == APP

    def is_app_of(a, k):
        if not isinstance(a, zz.ExprRef):
            return False
        c = a.ctx.ctx
        t = ast_kind(c, a.ast)
        return (t == APP or t == NUM) and decl_kind(c, get_decl(c, a.ast)) == k

    def num_args(self):
        return int(nargs(self.ctx.ctx, self.ast))

    def arg(self, idx):
        return zz._to_expr_ref(zz.Z3_get_app_arg(self.ctx.ctx, self.ast, idx), self.ctx)

    def children(self):
        c, a, x = self.ctx.ctx, self.ast, self.ctx
        k = ast_kind(c, a)
        if k != APP:
            return [] if k == NUM else old_children(self)
        return [zz._to_expr_ref(zz.Z3_get_app_arg(c, a, i), x) for i in range(nargs(c, a))]

    old_children = zz.ExprRef.children
    zz.ExprRef.num_args, zz.ExprRef.arg, zz.ExprRef.children = num_args, arg, children
    for n, f in (("is_app", is_app), ("is_app_of", is_app_of)):
        setattr(zz, n, f)
        setattr(z3, n, f)

    get_id = zz.Z3_get_ast_id
    zz.ExprRef.get_id = lambda self: get_id(self.ctx.ctx, self.ast)


install()
