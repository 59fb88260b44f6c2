"""Products of unknowns replaced by terms nothing is known of but that they are equal for equal factors. What is proved of such
formulas holds of the originals; a model of one may mean nothing."""
import z3

FUN = {}


def product(fs):
    """of factors in an order which does not depend on how they were written"""
    fs = sorted(fs, key=lambda f: (f.decl().name(), f.get_id()))
    r = fs[0]
    for f in fs[1:]:
        k = r.sort().name()
        if k not in FUN:
            FUN[k] = z3.Function('product_' + k, r.sort(), r.sort(), r.sort())
        r = FUN[k](r, f)
    return r


def update(t, a):
    """t with other arguments"""
    v = (z3.Ast * len(a))()
    for k, x in enumerate(a):
        v[k] = x.as_ast()
    return z3.z3._to_expr_ref(z3.Z3_update_term(t.ctx_ref(), t.as_ast(), len(a), v), t.ctx)


CACHE = {}      # of a term: it, what stands for it, and what is known of the products in that


def go(t):
    k = t.get_id()
    if k in CACHE:
        return CACHE[k][1:]
    signs = {}
    if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
        r = t
    else:
        a = []
        for x in t.children():
            y, g = go(x)
            a.append(y)
            signs.update(g)
        vs = []
        if z3.is_mul(t):
            vs = [x for x in a if not (z3.is_int_value(x) or z3.is_rational_value(x))]
        elif t.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(a[1]) and 1 < a[1].as_long() < 5:
            vs = [a[0]] * a[1].as_long()
            a = vs
        if len(vs) > 1:
            r = product(vs)
            if z3.is_int(r):
                signs[r.get_id()] = z3.Implies(z3.And([v >= 0 for v in vs]), r >= 0)
            for x in a:
                if z3.is_int_value(x) or z3.is_rational_value(x):
                    r = x * r
        else:
            r = update(t, a)
    CACHE[k] = (t, r, signs)
    return r, signs


class Linear:
    def __init__(self):
        self.known = {}
        self.signs = []        # of products which have come up since these were last asked for

    def __call__(self, c):
        k = c.get_id(), 'som'
        if k not in CACHE:
            CACHE[k] = (c, z3.simplify(c, som=True))
        r, signs = go(CACHE[k][1])
        for i, f in signs.items():
            if i not in self.known:
                self.known[i] = f
                self.signs.append(f)
        return r

    def facts(self):
        r, self.signs = self.signs, []
        return r
