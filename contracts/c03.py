"""Triangle arithmetic on aligned labels: the amounts cell by cell."""
from vc.api import *
from vc import stubs
DN = 'core.dunders.TriangleDunders.'
PRE = ' '.join(DN + x for x in ('_validate_arithmetic', '_compatibility_check', '_prep_columns', '_prep_origin_development', '_prep_index', '_arithmetic_cleanup')) \
    + ' utils.utility_functions.set_common_backend utils.utility_functions.num_to_nan core.common.Common.set_backend core.triangle.Triangle.copy'
SHAPES = {'same': 'KCOD/KCOD', 'index1': 'KCOD/1COD', '1index': '1COD/KCOD', 'col1': 'KCOD/K1OD', '1col': 'K1OD/KCOD', 'origin1': 'KCOD/KC1D', '1origin': 'KC1D/KCOD',
          'age1': 'KCOD/KCO1', '1age': 'KCO1/KCOD', 'scalarlike': 'KCOD/1111'}


def pair(spec, g='YY', **k):
    """two well-formed triangles on the same labels; an axis of length one broadcasts"""
    dims = {a: sym_dim('n' + a) for a in 'KCOD'}
    for d in dims.values(): ctx().assume(I(d) >= 2)
    a, b = spec.split('/')
    x = triangle('X', dims=[1 if s == '1' else dims[s] for s in a], og=g[0], dg=g[1], **k)
    y = triangle('Y', dims=[1 if s == '1' else dims[s] for s in b], og=g[0], dg=g[1], **k)
    if a[0] == b[0]: y.kdims = x.kdims
    if a[1] == b[1]: y.vdims = x.vdims
    if a[2] == b[2]: y.odims = x.odims
    if a[3] == b[3]: y.ddims = x.ddims
    full = tuple(dims[p if p != '1' else q] if not (p == q == '1') else 1 for p, q in zip(a, b))
    return x, y, full


def pick(t, src, ix):
    return src(tuple(z3.IntVal(0) if isinstance(d, int) and d == 1 else i for d, i in zip(t.shape, ix)))


OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}


def tri_labels(t):
    return (t.kdims, t.vdims, t.odims, t.ddims, t.valuation_date, t.is_cumulative, t.is_pattern, t.origin_grain, t.development_grain, t.key_labels)


def fresh_axis(x, y, spec):
    """labels of an operand's length-one axis are arbitrary"""
    a, b = spec.split('/')
    for t, s in ((x, a), (y, b)):
        n = t._vc['name']
        if s[2] == '1':
            q = z3.Int('o0' + n); ctx().assume(And(q >= -2400, q <= 6000))
            t.odims = SymTensor((1,), lambda i, q=q: MS(q), 'M')
        if s[3] == '1':
            q = z3.Int('d0' + n); ctx().assume(And(q >= 1, q <= 9999))
            t.ddims = SymTensor((1,), lambda i, q=q: q, 'i')


@contract('C03 C04', PRE + ' ' + ' '.join(DN + x for x in ('__add__', '__sub__', '__mul__', '__truediv__')), grid(op=list('+-*/'), sh=list(SHAPES), g=['YY', 'YQ']))
def binary(c, op, sh, g):
    x, y, full = pair(SHAPES[sh], g)
    if sh not in ('same', 'scalarlike'): fresh_axis(x, y, SHAPES[sh])
    sx, sy = x.values.snap(), y.values.snap()
    shx, shy = x.shape, y.shape
    lx, ly = tri_labels(x), tri_labels(y)
    r = OPS[op](x, y)
    c.prove('shape of the broadcast operands', And(len(r.shape) == 4, *[B(I(a) == I(b)) for a, b in zip(r.shape, full)]))
    k, m, i, j = ix = sym_idx(*full)
    ext = lambda s, f: f(tuple(z3.IntVal(0) if isinstance(d, int) and d == 1 else q for d, q in zip(s, ix)))
    a, b = ext(shx, sx), ext(shy, sy)
    e = r.values.atf(*ix)
    vd = r.valuation_date
    known = MS(vmonth(x, i, j) + 1) - 1 <= vd.at(())
    if op in '+-':
        s = N0(a) + N0(b) if op == '+' else N0(a) - N0(b)
        c.prove('known cell: %s with missing as zero' % ('sum' if op == '+' else 'difference'), Implies(known, And(Not(e.inf), N0(e) == s)))
        c.prove('cell not yet valued stays empty', Implies(Not(known), e.nan))
    else:
        c.prove('missing when an operand is missing', Implies(Or(a.nan, b.nan), e.nan))
        if op == '*': c.prove('product of the amounts', Implies(And(Not(a.nan), Not(b.nan)), And(Not(e.nan), Not(e.inf), e.v == a.v * b.v)))
        else: c.prove('quotient of the amounts', Implies(And(Not(a.nan), Not(b.nan), b.v != 0), And(Not(e.nan), Not(e.inf), e.v * b.v == a.v)))
    c.prove('labels of the longer operand on every axis', And(
        B(r.odims.at((i,)) == (x if shx[2] is full[2] else y).odims.at((i,))), B(r.ddims.at((j,)) == (x if shx[3] is full[3] else y).ddims.at((j,))),
        B(r.kdims.at((k, z3.IntVal(0))) == (x if shx[0] is full[0] else y).kdims.at((k, z3.IntVal(0)))), B(r.vdims.at((m,)) == (x if shx[1] is full[1] else y).vdims.at((m,)))))
    c.prove('operands untouched', And(*[p is q for p, q in zip(tri_labels(x), lx)], *[p is q for p, q in zip(tri_labels(y), ly)]))
    c.prove('operand amounts untouched', not x.values.buf.writes and not y.values.buf.writes and r.values.buf is not x.values.buf and r.values.buf is not y.values.buf)
    c.prove('valuation date is the later of the operands', vd.at(()) == tz.z3.If(lx[4].at(()) >= ly[4].at(()), lx[4].at(()), ly[4].at(())))
    c.prove('pattern flag kept when equal', r.is_pattern is False)


SC = {'x+s': lambda x, s: x + s, 's+x': lambda x, s: s + x, 'x-s': lambda x, s: x - s, 's-x': lambda x, s: s - x, 'x*s': lambda x, s: x * s, 's*x': lambda x, s: s * x,
      'x/s': lambda x, s: x / s, 's/x': lambda x, s: s / x}


@contract('C03 C04', ' '.join(DN + x for x in '_validate_arithmetic __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ _arithmetic_cleanup'.split()), grid(op=list(SC), kind=['scalar', 'array']))
def with_plain(c, op, kind):
    """triangle with a number or an array of its shape"""
    x = triangle('X')
    sx, lx = x.values.snap(), tri_labels(x)
    if kind == 'scalar':
        s = sym_tensor('s', (), 'f', nan=False)
    else: s = sym_tensor('s', x.shape, 'f', nan=True)
    r = SC[op](x, s) if not (kind == 'array' and op.startswith('s')) else {'s+x': x.__radd__, 's-x': x.__rsub__, 's*x': x.__rmul__, 's/x': x.__rtruediv__}[op](s) if op not in ('s+x', 's*x') else x.__add__(s) if op == 's+x' else x.__mul__(s)
    k, m, i, j = ix = sym_idx(*x.shape)
    a, b = sx(ix), (s.at(()) if kind == 'scalar' else s.atf(*ix))
    e = r.values.atf(*ix)
    known = vmonth(x, i, j) <= x.valuation_date.month_term
    if op == 's+x': c.assume(Implies(Not(known), a.nan))      # a well-formed triangle has no amount beyond its valuation date
    if '+' in op or '-' in op:
        v = {'x+s': N0(a) + N0(b), 's+x': N0(a) + N0(b), 'x-s': N0(a) - N0(b), 's-x': N0(b) - N0(a)}[op]
        c.prove('known cell: exact result with missing as zero', Implies(known, And(Not(e.inf), N0(e) == v)))
        c.prove('cell not yet valued stays empty', Implies(Not(known), e.nan))
    else:
        ok = And(Not(a.nan), Not(b.nan))
        c.prove('missing when an operand is missing', Implies(Or(a.nan, b.nan), e.nan))
        if '*' in op: c.prove('product', Implies(ok, And(Not(e.inf), N0(e) == a.v * b.v)))
        else:
            p, q = (a, b) if op == 'x/s' else (b, a)
            c.prove('quotient', Implies(And(ok, q.v != 0), And(Not(e.inf), N0(e) * q.v == p.v)))
    c.prove('labels kept', And(*[p is q for p, q in zip(tri_labels(r), lx)]))
    c.prove('operand untouched', And(*[p is q for p, q in zip(tri_labels(x), lx)], not x.values.buf.writes, kind == 'scalar' or not s.buf.writes))


@contract('C03 C04', ' '.join(DN + x for x in '__neg__ __abs__ __pos__ __lt__ __le__ __len__'.split()), grid(op=['neg', 'abs', 'pos', '<', '<=']))
def unary(c, op):
    x = triangle('X')
    sx, lx = x.values.snap(), tri_labels(x)
    s = sym_tensor('s', (), 'f', nan=False)
    r = {'neg': lambda: -x, 'abs': lambda: abs(x), 'pos': lambda: +x, '<': lambda: x < s, '<=': lambda: x <= s}[op]()
    ix = sym_idx(*x.shape)
    a, e = sx(ix), r.values.at(ix)
    if op in ('neg', 'abs', 'pos'):
        c.prove('amounts', And(Eqb(e.nan, a.nan), Not(e.inf), Implies(Not(a.nan), e.v == {'neg': -a.v, 'pos': a.v, 'abs': If(a.v < 0, -a.v, a.v)}[op])))
    else:
        v = s.at(()).v
        c.prove('comparison with missing as zero', Eqb(e if not hasattr(e, 'nan') else e.v != 0, {'<': N0(a) < v, '<=': N0(a) <= v}[op]))
    c.prove('labels kept', And(*[p is q for p, q in zip(tri_labels(r), lx)]))
    c.prove('operand untouched', And(*[p is q for p, q in zip(tri_labels(x), lx)], not x.values.buf.writes))


@contract('C03', PRE + ' ' + ' '.join(DN + x for x in ('__add__', '__sub__')), grid(op=list('+-'), g=['YY', 'QQ', 'YQ'], ax=['origin', 'age']) + grid(op=['-'], g=['YQ'], ax=['both']),
          thorough=grid(op=['+'], g=['YQ', 'QQ', 'YY'], ax=['both']),
          assumes=['pandas.concat of two label series: ordered union of two arithmetic progressions of one step and phase that overlap or touch (vc/models.py)'])
def union(c, op, g, ax):
    """operands on different origin / age ranges: a label missing from one operand counts as zero"""
    x = triangle('X', og=g[0], dg=g[1])
    p = z3.Int('p') if ax != 'age' else I(0); q = z3.Int('q') if ax != 'origin' else I(0)
    K, C, O, D = x.shape
    O2, D2 = (sym_dim('YO') if ax != 'age' else O), (sym_dim('YD') if ax != 'origin' else D)
    for d in (O, D, O2, D2): c.assume(I(d) >= 2)
    v = x._vc
    y = triangle('Y', dims=[K, C, O2, D2], og=g[0], dg=g[1], o0=v['o0'] + v['og'] * p, d0=v['d0'] + v['dg'] * q)
    y.kdims, y.vdims = x.kdims, x.vdims
    c.assume(And(p <= I(O), p + I(O2) >= 0, q <= I(D), q + I(D2) >= 0))
    if ax == 'age': y.odims = x.odims
    if ax == 'origin': y.ddims = x.ddims
    sx, sy = x.values.snap(), y.values.snap()
    r = OPS[op](x, y)
    k, m = sym_idx(K, C)
    i, j = z3.Int('i'), z3.Int('j')       # label position relative to x's first origin / age
    mn = lambda a: tz.z3.If(a < 0, a, z3.IntVal(0)); mx = lambda a, b: tz.z3.If(a > b, a, b)
    lo_i, hi_i, lo_j, hi_j = mn(p), mx(I(O), p + I(O2)), mn(q), mx(I(D), q + I(D2))
    c.assume(And(i >= lo_i, i < hi_i, j >= lo_j, j < hi_j))
    c.prove('every label of either operand, once', And(I(r.shape[2]) == hi_i - lo_i, I(r.shape[3]) == hi_j - lo_j,
            r.odims.at((i - lo_i,)) == MS(v['o0'] + v['og'] * i), r.ddims.at((j - lo_j,)) == v['d0'] + v['dg'] * j))
    inx = And(i >= 0, i < I(O), j >= 0, j < I(D)); iny = And(i >= p, i < p + I(O2), j >= q, j < q + I(D2))
    a = If(inx, N0(sx((k, m, i, j))), ZERO); b = If(iny, N0(sy((k, m, i - p, j - q))), ZERO)
    e = r.values.at((k, m, i - lo_i, j - lo_j))
    known = MS(vmonth(x, i, j) + 1) - 1 <= r.valuation_date.at(())
    c.prove('known label: %s with absent labels as zero' % ('sum' if op == '+' else 'difference'), Implies(known, And(Not(e.inf), N0(e) == (a + b if op == '+' else a - b))))
    c.prove('operand amounts untouched', not x.values.buf.writes and not y.values.buf.writes)


@contract('C03', ' '.join(DN + x for x in ('__add__', '__sub__')), grid(g=['YY', 'YQ', 'MM'], law=['commute', 'undo']))
def laws(c, g, law):
    x, y, full = pair('KCOD/KCOD', g)
    k, m, i, j = ix = sym_idx(*full)
    if law == 'commute':
        e, f = (x + y).values.at(ix), (y + x).values.at(ix)
        c.prove('x + y and y + x agree cell by cell', same(e, f))
    else:
        a = x.values.at(ix)
        known = vmonth(x, i, j) <= x.valuation_date.month_term
        e = ((x + y) - y).values.at(ix)
        c.prove('(x + y) - y gives back x on its known cells', Implies(known, And(Not(e.inf), N0(e) == N0(a))))
