"""selint_config.c: the configuration file.  libconfuse is modelled by what a file says about each key."""
from specs.te import *
from specs.ast import ev, tr, Trace, EVC, evc
from specs.run import isnew
from specs.sl import SP, SPtr, one_el
WHYC = 'libconfuse: the value(s) the file gives for a key (or the default registered for it)'
def CS(h, k): return h.uf('cfg_str', [Str, Str], k)
def CN(h, k): return h.uf('cfg_size', [Str, B32], k)
def CI(h, k, i): return h.uf('cfg_nth', [Str, B32, Str], k, i)
def txt(c, mem, s):
    p = c.malloc(mem, None, TRUE, 'char'); c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), p, s)); return p
def key_ok(h, cfg, k, *a): return [('the configuration is loaded', nz(cfg)), ('a key', And(nz(k), h.valid(k, 'char')))]
def x_str(c, mem, pc, cfg, k): h = Heap(c, mem); return txt(c, mem, CS(h, h.S(k)))
def x_nstr(c, mem, pc, cfg, k, i):
    h = Heap(c, mem); c.oblige('cfg_getnstr: index in range', 'pre', pc, ULT(i, CN(h, h.S(k))), None); return txt(c, mem, CI(h, h.S(k), i))
PARSED = z3.Const('configuration_can_be_parsed', BOOL)
def xk(n, eff, pre=None): return Contract(n, label='libconfuse', external=True, effects=eff, pre=pre, trusted=True, why=WHYC)
CFG = {k.name: k for k in (xk('cfg_getstr', x_str, key_ok), xk('cfg_getnstr', x_nstr, key_ok), xk('cfg_size', lambda c, mem, pc, cfg, k: CN(Heap(c, mem), Heap(c, mem).S(k)), key_ok),
    xk('cfg_init', lambda c, mem, pc, *a: c.malloc(mem, None, pc, 'cfg_t')), xk('cfg_parse', lambda c, mem, pc, *a: z3.If(PARSED, bv(0, 32), bv(1, 32))), xk('cfg_free', lambda c, mem, pc, *a: bv(0, 32)))}
def kd_of(h, k): return h.lit(k)
CDecl = RecFn('CfgDecl', [Trace, Str, B32, B32], Trace, lambda h, t, k, f, i: If(z3.UGE(i, CN(h, k)), t, lambda: CDecl(h, ev(h, 'declare', t, CI(h, k, i), h.lit(b'__assumed__'), f), k, f, i + 1)))
def w32(i): return i if i.size() == 32 else z3.Extract(31, 0, i)
def tr_setup(c, mem, args): c.ghost(mem, 'trace', Trace)
COPT = dict(contracts=dict(CFG, insert_into_decl_map=EVC['insert_into_decl_map']))
add(Contract('insert_config_declarations', pre=key_ok, setup=tr_setup, post=lambda h0, h1, r, cfg, k, f: [('declares every name listed under the key, in order, with the given kind', Eq(tr(h1), CDecl(h0, tr(h0), h0.S(k), f, bv(0, 32))))],
    modifies=lambda *a: [(('ghost', 'trace'), 'val')], opts=COPT, case=lambda con, nat, w: None,
    inv=[('declared so far', lambda h, A, L, i: Eq(CDecl(h, tr(h), h.S(A[1]), A[2], w32(i)), CDecl(h, tr(Heap(L.c, L.mem0)), h.S(A[1]), A[2], bv(0, 32))))]), 'P19')

# ---------------------------------------------------------------- the whole file
def SLOTF(k): return (lambda h, A: h.f(A[6], 'config_check_data', 'custom_te_simple_macros')) if k == 'te' else (lambda h, A: cell64(h, A[k]))
def cell64(h, p): return h.ctx.select(h.region(('cell', 64)), p)
KEYS = ('disable', 'enable_source', 'enable_normal', 'custom_fc_macros', 'custom_te_simple_macros')
Lst = RecFn('CfgList', [Str, B32, BV64], BOOL, lambda h, k, i, l: If(z3.UGE(i, CN(h, k)), isz(l), lambda: And(nz(l), h.valid(l, 'string_list'), isnew(h, l), Eq(SV(h, l), CI(h, k, i)), Eq(SP(h, l), 0), Lst(h, k, i + 1, NX(h, l)))))
def L0(h, k, l): return Lst(h, h.lit(k), bv(0, 32), l)
LISTS = True
def lsum():
    out = []
    for k in KEYS:
        kb = k.encode(); own = 3 if k == 'disable' else 4 if k[:6] == 'enable' else 5 if k == 'custom_fc_macros' else 'te'
        g = SLOTF(own); rel = lambda nm, f: out.append((k + ' ' + nm, f, 'int', kb))
        rel('rest', lambda hA, hX, A, p, i, kb=kb: Implies(nz(p), Lst(hX, hX.lit(kb), i, NX(hX, p))))
        rel('slot first', lambda hA, hX, A, p, i, kb=kb, g=g: Implies(And(isz(p), ULT(i, CN(hX, hX.lit(kb)))), Lst(hX, hX.lit(kb), i, g(hX, A))))
        rel('slot untouched', lambda hA, hX, A, p, i, kb=kb, g=g: Implies(And(isz(p), Not(ULT(i, CN(hX, hX.lit(kb))))), Eq(g(hX, A), g(hA, A))))
        for s in (3, 4, 5, 'te'):
            f = SLOTF(s)
            rel('slot %s kept' % s, lambda hA, hX, A, p, i, f=f, own=(s == own): Implies(nz(p) if own else True, Eq(f(hX, A), f(hA, A))))
    return out
SEVS = dict(convention='C', style='S', warning='W', error='E', fatal='F')
ORD = {'refpolicy': 'ORDER_REF', 'refpolicy-light': 'ORDER_LIGHT', 'refpolicy-lax': 'ORDER_LAX'}
FLV = dict(attribute='DECL_ATTRIBUTE', attribute_role='DECL_ATTRIBUTE_ROLE', bool='DECL_BOOL', role='DECL_ROLE', type='DECL_TYPE', **{'class': 'DECL_CLASS'})
YES, NO = ('true', 'True', 'TRUE', 'yes', 'Yes', 'YES'), ('false', 'False', 'FALSE', 'no', 'No', 'NO')
def isin(h, v, names): return Or([Eq(v, h.lit(n.encode())) for n in names])
def good(h):
    g = lambda k: CS(h, h.lit(k)); q = h.lit(b'ordering_requires'); f = [CI(h, q, bv(i, 32)) for i in range(6)]
    return [isin(h, g(b'severity'), SEVS), isin(h, g(b'ordering_rules'), ORD), Eq(CN(h, q), 6), And([isin(h, x, FLV) for x in f]), z3.Distinct(*f),
            isin(h, g(b'ordering_requires_same_flavor'), YES + NO), isin(h, g(b'skip_checking_generated_fcs'), YES + NO)]
B8 = z3.BitVecSort(8)
def sev_byte(c, mem, a, v, pc, line, who):
    c.oblige('%s: the only character written is the severity' % who, 'deref', pc, Eq(a, c.root_args[2]), line)
    c.setregion(mem, ('ghost', 'severity'), v)
def cfg_setup(c, mem, args): c.ghost(mem, 'trace', Trace); c.ghost(mem, 'severity', B8)
def cfg_post(h0, h1, r, fn, src, sev, dis, en, fcm, d):
    E = h0.E; ok = Eq(r, E('SELINT_SUCCESS')); A = (fn, src, sev, dis, en, fcm, d); g = lambda k: CS(h0, h0.lit(k))
    F = lambda f: h1.f(d, 'config_check_data', f)
    out = [('is accepted exactly when it can be parsed and every option has one of its documented values', Iff(ok, And(PARSED, *good(h0)))), ('reports a parse error otherwise', Or(ok, Eq(r, E('SELINT_CONFIG_PARSE_ERROR'))))]
    for n, ch in SEVS.items(): out.append(('severity %s is level %s' % (n, ch), Implies(And(ok, Eq(g(b'severity'), h0.lit(n.encode()))), Eq(h1.ghost('severity', B8), ord(ch)))))
    for n, e in ORD.items(): out.append(('ordering rules %s' % n, Implies(And(ok, Eq(g(b'ordering_rules'), h0.lit(n.encode()))), Eq(F('order_conf'), E(e)))))
    for f in ('ordering_requires_same_flavor', 'skip_checking_generated_fcs'): out.append(('%s is set to the value given' % f, Implies(ok, Iff(Ne(F(f), 0), isin(h0, g(f.encode()), YES)))))
    one = lambda nm, k, l, l0, c=True: out.append((nm, Implies(And(ok, c), Ite(Eq(CN(h0, h0.lit(k)), 0), Eq(l, l0), L0(h1, k, l)))))
    cell = lambda h, p: cell64(h, p)
    LISTS and one('the disabled checks are the listed ones', b'disable', cell(h1, dis), cell(h0, dis), nz(dis))
    LISTS and one('the enabled checks are those listed for source mode', b'enable_source', cell(h1, en), cell(h0, en), And(nz(en), nz(src)))
    LISTS and one('the enabled checks are those listed for normal mode', b'enable_normal', cell(h1, en), cell(h0, en), And(nz(en), isz(src)))
    LISTS and one('the file context macros are the listed ones', b'custom_fc_macros', cell(h1, fcm), cell(h0, fcm), nz(fcm))
    LISTS and one('the simple macros are the listed ones', b'custom_te_simple_macros', F('custom_te_simple_macros'), h0.f(d, 'config_check_data', 'custom_te_simple_macros'))
    z = bv(0, 32)
    t1 = CDecl(h0, tr(h0), h0.lit(b'assume_users'), bv(E('DECL_USER'), 32), z)
    out.append(('the assumed users and roles are declared', Implies(ok, Eq(tr(h1), CDecl(h0, t1, h0.lit(b'assume_roles'), bv(E('DECL_ROLE'), 32), z)))))
    return out
ICD = Contract('insert_config_declarations', label='uses', pre=key_ok, trusted=False, effects=None, modifies=lambda *a: [(('ghost', 'trace'), 'val')],
    post=lambda h0, h1, r, cfg, k, f: [('', Eq(tr(h1), CDecl(h0, tr(h0), h0.S(k), f, bv(0, 32))))])
POPT = dict(contracts=dict(CFG, insert_into_decl_map=EVC['insert_into_decl_map'], insert_config_declarations=ICD), persist=LISTS, noframe=True, store_byte=sev_byte, lean=True, noloopframe=(('cell', 64),))
add(Contract('parse_config', label='config', pre=lambda h, fn, src, sev, dis, en, fcm, d: [('a file name', And(nz(fn), h.valid(fn, 'char'))), ('separate places', z3.Distinct(dis, en, fcm)), ('places for the results', And(nz(sev), nz(d), h.valid(d, 'config_check_data'), h.valid(sev, 'char')))],
    setup=cfg_setup, post=cfg_post, opts=POPT, ptr_types=('string_list',), loopsum=lsum(), case=lambda con, nat, w: None), 'P19')
