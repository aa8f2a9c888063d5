"""if_checks.c: checks on interfaces and require blocks"""
from specs.te import *

DEFS = ('NODE_INTERFACE_DEF', 'NODE_TEMP_DEF')
# ---- C-004
chk('check_interface_definitions_have_comment', ['P14'], lambda h, d, n: Or(isz(prv(h, n)), Not(lambda_and(lambda: isfl(h, prv(h, n), 'NODE_COMMENT'), nz(prv(h, n))))),
    'C', 'C_ID_IF_COMMENT', DEFS)

# ---- C-006
def cfgp(h, d): return h.f(d, 'check_data', 'config_check_data')
def order_entry(h, c, i):
    return h.fidx(c, 'config_check_data', 'order_requires', i)
def flcmp(h, c, a, b, n):
    """-1/1/0: which flavour comes first in the configured order"""
    def go(i):
        if i >= n: return i32(h, 0)
        o = order_entry(h, c, i)
        return If(Eq(a, o), i32(h, -1), lambda: If(Eq(b, o), i32(h, 1), lambda: go(i + 1)))
    return If(Eq(a, b), i32(h, 0), lambda: go(0))
def i32(h, v): return v if h.concrete else bv(v, 32)
Diff = RecFn('Diff', [Str, Str, BV64], BV64, lambda h, a, b, k: If(Or(Eq(h.ch(a, k), 0), Eq(h.ch(b, k), 0), Ne(h.ch(a, k), h.ch(b, k))), k, lambda: Diff(h, a, b, k + 1)))
def adj(h, a, k):
    return If(And(nz(k), Eq(h.ch(a, k), ord('t')), Eq(h.ch(a, k + 1), 0), lambda_and(lambda: Eq(h.ch(a, k - 1), ord('_')), nz(k))), k - 1, k)
def nmbad(h, A, B):
    k = Diff(h, A, B, 0) if h.concrete else Diff(h, A, B, bv(0))
    x, y = h.ch(A, adj(h, A, k)), h.ch(B, adj(h, B, k))
    return Or(Eq(x, y), ULT(y, x))
def declbad(h, c, p, q):
    a, b = h.f(p, 'declaration_data', 'flavor'), h.f(q, 'declaration_data', 'flavor')
    r = flcmp(h, c, a, b, h.arrlen('config_check_data', 'order_requires'))
    same = nz(h.f(c, 'config_check_data', 'ordering_requires_same_flavor'))
    return Or(Eq(r, 1), lambda_and(lambda: And(Eq(r, 0), same, nmbad(h, h.S(h.f(p, 'declaration_data', 'name')), h.S(h.f(q, 'declaration_data', 'name')))), Not(Eq(r, 1))))
# the elements from q on, with p the declaration before q (0: none): some element is no declaration or out of order
BadReq = RecFn('BadReq', [BV64, BV64, BV64], BOOL, lambda h, d, p, q: If(isz(q), False, lambda: Or(
    Not(isfl(h, q, 'NODE_DECL')), lambda_and(lambda: If(isz(p), False, lambda: declbad(h, d, p, ND(h, q))), isfl(h, q, 'NODE_DECL')), BadReq(h, d, lambda_nd(h, q), nxt(h, q)))))
def lambda_nd(h, q): return ND(h, q)
def reqpre(h, d, n):
    return [('children of a require block are a start marker followed by declarations', ReqShape(h, child(h, n)))]
def okstr(h, s): return True
def c006(h, d, n):
    c = child(h, n)
    return If(isz(c), True, lambda: If(Not(isfl(h, c, 'NODE_START_BLOCK')), True, lambda: If(isz(nxt(h, c)), True, lambda: BadReq(h, cfgp(h, d), 0, nxt(h, c)))))
HasNonDecl = RecFn('HasNonDecl', [BV64], BOOL, lambda h, q: If(isz(q), False, lambda: Or(Not(isfl(h, q, 'NODE_DECL')), HasNonDecl(h, nxt(h, q)))))
def woff(L, n, v):
    """(string base, offset) of the value v of the string-walking loop variable n"""
    w = L.c.walkinfo.get(L.hv[n].get_id())
    if w is None or not (z3.is_bv(v) and v.size() == 64): return None
    return w[0], z3.simplify(v - w[0])
def sgt0(h, r): return 0 < r < 1 << 31 if h.concrete else r > 0
def diffinv(h, A, L, p, q):
    a, b = woff(L, L.combo[0], p), woff(L, L.combo[1], q)
    if a is None or b is None or a[0].eq(b[0]): return None
    x, y = h.S(a[0]), h.S(b[0])
    return And(a[1] == b[1], Diff(h, x, y, a[1]) == Diff(h, x, y, bv(0)))
def gen_cmp(w):
    g = gen.G(w); d = g.check_data(); a, b = g.decl(), g.decl()
    if w.rng.random() < .6:
        w.set(b, 'declaration_data', 'flavor', CH(w).f(a, 'declaration_data', 'flavor'))
        n = CH(w).S(CH(w).f(a, 'declaration_data', 'name'))
        if w.rng.random() < .7: w.set(b, 'declaration_data', 'name', w.str(n[:w.rng.randrange(len(n) + 1)] + w.rng.choice([b'', b'_t', b't', b'_x', b'exec_t', b'_', b's_t'])))
    return [a, b, CH(w).f(d, 'check_data', 'config_check_data')]
from gen import CH
import gen
add(Contract('compare_declarations', optional=True, gen=gen_cmp, pre=lambda h, a, b, c: [(x + ' valid', And(nz(v), h.valid(v, t))) for x, v, t in (('first', a, 'declaration_data'), ('second', b, 'declaration_data'), ('configuration', c, 'config_check_data'))],
    post=lambda h0, h1, r, a, b, c: [('positive or zero exactly when out of order or repeated', Iff(Or(Eq(r, 0), sgt0(h0, r)), declbad(h0, c, a, b)))], inv=[('common prefix', diffinv)]), 'P14')
chk('check_unordered_declaration_in_require', ['P14'], c006, 'C', 'C_ID_UNORDERED_REQ', ('NODE_REQUIRE', 'NODE_GEN_REQ'),
    internal=lambda h, d, n: If(isz(child(h, n)), True, lambda: If(Not(isfl(h, child(h, n), 'NODE_START_BLOCK')), True, lambda: HasNonDecl(h, nxt(h, child(h, n))))),
    ptr_types=('string_list', 'policy_node', 'declaration_data'), inv=[('common prefix', diffinv)],
    tails=[lambda h, p, q: BadReq(h, cfgp(h, h.ctx.root_args[0]), p, q), lambda h, q: HasNonDecl(h, q)])

# ---- S-004
def s004(h, d, n):
    e = Encl(h, parent(h, n))
    return And(dflav(h, d, 'FILE_IF_FILE'), If(isz(e), False, lambda: And(isfl(h, e, 'NODE_INTERFACE_DEF'), nz(lk(h, 'template', icname(h, n))))))
chk('check_if_calls_template', ['P14'], s004, 'S', 'S_ID_IF_CALLS_TEMPL', ('NODE_IF_CALL',), tails=[lambda h, p: Encl(h, p)])
# ---- S-005: nearest enclosing definition is an interface, and no require block lies in between
DeclIf = RecFn('DeclIf', [BV64], BOOL, lambda h, n: If(isz(n), False, lambda: If(isfl(h, n, *DEFS), lambda: isfl(h, n, 'NODE_INTERFACE_DEF'),
    lambda: If(isfl(h, n, 'NODE_GEN_REQ', 'NODE_REQUIRE'), False, lambda: DeclIf(h, parent(h, n))))))
chk('check_decl_in_if', ['P14'], lambda h, d, n: And(dflav(h, d, 'FILE_IF_FILE'), DeclIf(h, parent(h, n))), 'S', 'S_ID_DECL_IN_IF', ('NODE_DECL',), tails=[lambda h, p: DeclIf(h, p)])
# ---- S-008
chk('check_unquoted_gen_require_block', ['P14'], lambda h, d, n: nz(h.f(ND(h, n), 'gen_require_data', 'unquoted')), 'S', 'S_ID_UNQUOTE_GENREQ', ('NODE_GEN_REQ',))
# ---- W-011
def w011(h, d, n):
    fl = decl(h, n, 'flavor'); nm = h.S(decl(h, n, 'name'))
    m = lk(h, 'decl', nm, fl)
    return And(dflav(h, d, 'FILE_IF_FILE'), Not(Or([Eq(fl, h.E(x)) for x in ('DECL_CLASS', 'DECL_PERM', 'DECL_USER')])), Ne(h.ch(nm), ord('$')), InReq(h, n),
        If(isz(m), True, lambda: And(Ne(h.S(m), h.S(h.f(d, 'check_data', 'mod_name'))), Not(And(Eq(fl, h.E('DECL_ROLE')), Eq(h.S(m), h.lit(b'kernel')))))))
chk('check_required_declaration_own', ['P21'], w011, 'W', 'W_ID_IF_DECL_NOT_OWN', ('NODE_DECL',))
