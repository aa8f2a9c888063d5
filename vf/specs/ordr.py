"""ordering.c: sections, sub-sections and the comparison of two elements (C-001)"""
from specs.te import *
from specs.run import isnew
import gen

ACYCLIC.add(('section_data', 'next'))
NONORD, DECLS = b'_non_ordered', b'_declaration'
def flag(h, m, s): return Ne(h.lk(m, s), 0)
_lk = Heap.lk
def heap_lk2(h, m, s, *a):
    if m in ('transform', 'filetrans', 'role'): return h.uf('map_' + m, [Str, B32], s if not isinstance(s, bytes) else h.ctx.lit(s))
    return _lk(h, m, s, *a)
Heap.lk = heap_lk2
for fn, m in (('is_transform_if', 'transform'), ('is_filetrans_if', 'filetrans'), ('is_role_if', 'role')):
    if fn not in C: add(Contract(fn, nonnull=(0,), value=lambda h, s, m=m: h.lk(m, h.S(s)), pre=lambda h, s: [('name is a string', h.valid(s, 'char'))], trusted=True, why='symbol-table abstraction; its update laws are property P08'))

# ---- which kind of conditional block is the outermost one around (or is) an element
KINDS = {'optional': ('NODE_OPTIONAL_POLICY', 'NODE_OPTIONAL_ELSE'), 'boolean': ('NODE_BOOLEAN_POLICY',), 'tunable': ('NODE_TUNABLE_POLICY',), 'ifdef': ('NODE_IFDEF', 'NODE_IFELSE')}
ALLK = tuple(x for k in KINDS.values() for x in k)
def outer(k):
    f = RecFn('Outermost_' + k, [BV64, BOOL], BOOL, lambda h, n, r: If(isz(n), r, lambda: f(h, parent(h, n), Or(isfl(h, n, *KINDS[k]), And(r, Not(isfl(h, n, *ALLK)))))))
    return f
OUT = {k: outer(k) for k in KINDS}
def Within(h, k, n): return OUT[k](h, n, False if h.concrete else FALSE)
def cond_inv(k):
    def f(h, A, L, r, p):
        if L.isptr(L.combo[0]) or not L.isptr(L.combo[1]): return None
        b = lambda x: x if z3.is_bool(x) else Ne(x, bv(0, x.size()))
        return Iff(OUT[k](h, p, b(r)), OUT[k](Heap(h.ctx, L.mem0), L.entry[L.combo[1]], b(L.entry[L.combo[0]])))
    return f
def nodeok(h, n): return [('an element', And(nz(n), h.valid(n, 'policy_node')))]
for k, fn in (('optional', 'is_optional'), ('boolean', 'is_boolean'), ('tunable', 'is_tunable'), ('ifdef', 'is_in_ifdef')):
    add(Contract(fn, pre=nodeok, value=lambda h, n, k=k: Within(h, k, n), inv=[('outermost block', cond_inv(k))], optional=True), 'P18')

# ---- sections
BLK = ('NODE_OPTIONAL_POLICY', 'NODE_OPTIONAL_ELSE', 'NODE_BOOLEAN_POLICY', 'NODE_TUNABLE_POLICY', 'NODE_IFDEF', 'NODE_IFELSE')
# the element that decides the section: blocks take that of their first element
SecN = RecFn('SecNode', [BV64], BV64, lambda h, n: If(isz(n), n, lambda: If(isfl(h, n, *BLK), lambda: SecN(h, child(h, n)), lambda: If(And(isfl(h, n, 'NODE_START_BLOCK'), nz(nxt(h, n))), lambda: SecN(h, nxt(h, n)), n))))
NOSEC = ('NODE_TE_FILE', 'NODE_IF_FILE', 'NODE_FC_FILE', 'NODE_SPT_FILE', 'NODE_AV_FILE', 'NODE_TEMP_DEF', 'NODE_INTERFACE_DEF', 'NODE_FC_ENTRY', 'NODE_CLEANUP')
def HasSec(h, n):
    m = SecN(h, n); return And(nz(m), lambda_and(lambda: Not(isfl(h, m, *NOSEC)), nz(m)))
def sel(q, a, b):
    if isinstance(q, bool): return a() if q else b()
    return z3.If(q, a(), b())
def Sec(h, n):
    """name of the section (only meaningful where there is one)"""
    m = SecN(h, n); N = h.lit(NONORD); D = h.lit(DECLS)
    def avsec():
        p = av(h, m, 'perms'); fl = av(h, m, 'flavor'); S = av(h, m, 'sources')
        un = Or(Eq(fl, h.E('AV_RULE_NEVERALLOW')), Eq(fl, h.E('AV_RULE_AUDITALLOW')), InSL(h, h.lit(b'associate'), p), InSL(h, h.lit(b'mounton'), p))
        return sel(un, lambda: N, lambda: SV(h, S))
    def call():
        nm = icname(h, m); a = icargs(h, m)
        top = And(*[Not(Within(h, k, m)) for k in KINDS])
        dec = And(top, Or(nz(lk(h, 'template', nm)), flag(h, 'transform', nm), flag(h, 'role', nm)))
        return sel(flag(h, 'filetrans', nm), lambda: N, lambda: sel(dec, lambda: D, lambda: sel(isz(a), lambda: N, lambda: SV(h, a))))
    return sel(isfl(h, m, 'NODE_AV_RULE', 'NODE_XAV_RULE'), avsec, lambda: sel(isfl(h, m, 'NODE_TT_RULE'), lambda: SV(h, h.f(ND(h, m), 'type_transition_data', 'sources')),
        lambda: sel(isfl(h, m, 'NODE_DECL', 'NODE_ALIAS', 'NODE_TYPE_ALIAS', 'NODE_TYPE_ATTRIBUTE', 'NODE_ROLE_ATTRIBUTE'), lambda: sel(InReq(h, m), lambda: N, lambda: D),
        lambda: sel(isfl(h, m, 'NODE_IF_CALL'), call, lambda: N))))
add(Contract('get_section', pre=lambda h, n: [('element or nothing', Or(isz(n), h.valid(n, 'policy_node')))],
    post=lambda h0, h1, r, n: [('there is a section exactly for elements of a type-enforcement file', Iff(nz(r), HasSec(h0, n))), ('the section name is a string', Implies(nz(r), h1.valid(r, 'char'))),
        ('the section is the one of the style guide', thunk2(nz(r), lambda: Eq(h1.S(r), Sec(h0, n))))], gen=lambda w: gnode(w), opts=dict(recursive=True)), 'P18')
import struct
def c_avg(h, s, l):
    while l:
        if h.S(SDN(h, l)) == s: return struct.unpack('f', struct.pack('I', h.f(l, 'section_data', 'avg_line')))[0]
        l = sdn(h, l)
    return -1.0
import cx
cx.CHeap.avg = c_avg
def gcmp(w):
    r = w.rng; g = gen.G(w, (b'self', b'kernel', b'system')); g.pool = g.pool[:r.choice([2, 3, 5])] + r.sample([b'self', b'kernel', b'system', b'foo', b'foo_t', b'bar_t'], 3); g.maps()
    want = r.choice([('NODE_IF_CALL',), ('NODE_AV_RULE', 'NODE_IF_CALL'), ('NODE_OPTIONAL_POLICY',), ('NODE_DECL', 'NODE_AV_RULE', 'NODE_IF_CALL', 'NODE_TT_RULE', 'NODE_OPTIONAL_POLICY')])
    root, a, al = g.tree(want, blocks=('NODE_OPTIONAL_POLICY',) if r.random() < .5 else ())
    h = cx.CHeap(w); bs = [n for f, n in al if f in want]; b = r.choice(bs)
    l = 0; names = list(dict.fromkeys(g.pool + [DECLS, NONORD])); r.shuffle(names)
    for nm in names: l = w.obj('section_data', section_name=nm, avg_line=struct.unpack('I', struct.pack('f', r.choice([1.0, 2.5, 3.0, 7.0])))[0], next=l)
    return [w.obj('ordering_metadata', mod_name=r.choice(g.pool) or b'm', sections=l), a, b]
def thunk2(q, f):
    if isinstance(q, bool): return f() if q else True
    return Implies(q, f())
def gnode(w):
    g = gen.G(w, (b'associate', b'mounton')); g.maps(); return [g.tree(('NODE_AV_RULE', 'NODE_TT_RULE', 'NODE_IF_CALL', 'NODE_DECL') + (BLK if w.rng.random() < .5 else ()))[1]]

# ---- two names for one section: foo, foo_t, foo_r
def stem(h, s):
    n = h.slen(s)
    ends = Or(h.endsw(s, b'_t'), h.endsw(s, b'_r')) if h.concrete else Or(h.endsw(s, h.lit(b'_t')), h.endsw(s, h.lit(b'_r')))
    n3 = n >= 3 if h.concrete else z3.UGE(n, bv(3))
    return n, And(n3, ends)
def SameSec(h, a, b):
    if h.concrete:
        st = lambda s: s[:-2] if len(s) >= 3 and s[-2:] in (b'_t', b'_r') else s
        na, nb = len(st(a)), len(st(b)); m = max(na, nb); return a[:m] == b[:m]
    c = h.ctx
    def ln(s):
        n = c.slen(s); last, bl = c.ch(s, n - 1), c.ch(s, n - 2)
        return z3.If(And(z3.UGE(n, bv(3)), Or(last == ord('t'), last == ord('r')), bl == ord('_')), n - 2, n)
    na, nb = ln(a), ln(b); m = z3.If(z3.UGT(na, nb), na, nb)
    return c.pre(a, m) == c.pre(b, m)
add(Contract('is_same_section', pre=lambda h, a, b: [('strings', And(nz(a), nz(b), h.valid(a, 'char'), h.valid(b, 'char')))], value=lambda h, a, b: SameSec(h, h.S(a), h.S(b)), optional=True,
    gen=lambda w: [w.str(w.rng.choice([b'foo', b'foo_t', b'foo_r', b'_t', b'a_t', b'fo', b'foo_tt', b'foo_x', b'', b'foo_exec_t'])) for i in (0, 1)]), 'P18')

# ---- average line of a section
F32 = z3.Float32()
def SDN(h, l): return h.f(l, 'section_data', 'section_name')
def sdn(h, l): return h.f(l, 'section_data', 'next')
Named = RecFn('AllNamed', [BV64], BOOL, lambda h, l: If(isz(l), True, lambda: And(nz(SDN(h, l)), Named(h, sdn(h, l)))))
Avg = RecFn('AvgLine', [Str, BV64], F32, lambda h, s, l: z3.If(l == 0, z3.FPVal(-1.0, F32), z3.If(h.S(SDN(h, l)) == s, z3.fpBVToFP(h.f(l, 'section_data', 'avg_line'), F32), Avg(h, s, sdn(h, l)))))

import gen as _g
def avg_pre(h, s, l): return [('a name', And(nz(s), h.valid(s, 'char'))), ('a list of named sections', And(nz(l), h.valid(l, 'section_data'), Named(h, l)))]
add(Contract('get_avg_line_by_name', pre=avg_pre, value=lambda h, s, l: Avg(h, h.S(s), l), optional=True, tails=[lambda h, p: Avg(h, h.S(h.ctx.root_args[0]), p), lambda h, p: Named(h, p)],
    ptr_types=('section_data', 'char'), case=lambda con, nat, w: None), 'P18')

# ---- sub-section of an element within its section
def foreign(h, s, mod):
    t = lk(h, 'decl', s, h.E('DECL_TYPE')); a = lk(h, 'decl', s, h.E('DECL_ATTRIBUTE'))
    m = sel(nz(t), lambda: t, lambda: a)
    return And(nz(m), Ne(h.S(m), mod))
Foreign = RecFn('ForeignName', [BV64, Str], BOOL, lambda h, l, mod: If(isz(l), False, lambda: Or(foreign(h, SV(h, l), mod), Foreign(h, NX(h, l), mod))))
def names(h, n): return h.names(n)
Heap.names = lambda h, n: h.uf('names_in_element', [BV64, BV64], n)
import cx
cx.CHeap.names = lambda h, n: h.w.nat.fn('get_names_in_node')(n)
NV = {'get_names_in_node': Contract('get_names_in_node', label='view', pre=nodeok, value=names, post=lambda h0, h1, r, n: [('a list', Or(isz(r), h1.valid(r, 'string_list')))], trusted=True, why='the list of names used in an element; modelled as a function of the element')}
def OwnRule(h, n, mod):
    return And(isfl(h, n, 'NODE_AV_RULE', 'NODE_XAV_RULE', 'NODE_IF_CALL'), Not(And(isfl(h, n, 'NODE_IF_CALL'), lambda_and(lambda: nz(lk(h, 'ifs', icname(h, n))), isfl(h, n, 'NODE_IF_CALL')))), Not(Foreign(h, names(h, n), mod)))
modok = lambda h, m: ('a module name', And(nz(m), h.valid(m, 'char')))
add(Contract('is_own_module_rule', pre=lambda h, n, m: nodeok(h, n) + [modok(h, m)], value=lambda h, n, m: OwnRule(h, n, h.S(m)), optional=True, opts=dict(contracts=NV),
    tails=[lambda h, p: Foreign(h, p, h.S(h.ctx.root_args[1]))], gen=lambda w: [gnode(w)[0], w.str(gen.G(w).s(False))]), 'P18')
def prefix(h, s):
    if h.concrete: return s.split(b'_')[0]
    return h.ctx.pre(s, z3.If(h.haschr(s, b'_'), h.idxchr(s, b'_'), h.slen(s)))
def Lss(h, mod, n, variant):
    """rank of the sub-section; mod is the name of the module"""
    E = h.E; fl = lambda *x: isfl(h, n, *x); isv = lambda v: Eq(variant, E(v)); K = lambda x: E(x) if h.concrete else bv(E(x), 32)
    call = fl('NODE_IF_CALL'); rule = fl('NODE_AV_RULE', 'NODE_XAV_RULE')
    t = lambda: av(h, n, 'targets')
    m = lambda: lk(h, 'ifs', icname(h, n)); M = lambda: h.S(m())
    known = And(call, lambda_and(lambda: nz(m()), call)); ly = lambda: lk(h, 'mod_layers', M())
    inlayer = lambda x: And(known, lambda_and(lambda: And(nz(ly()), lambda_and(lambda: Eq(h.S(ly()), h.lit(x)), nz(ly()))), known))
    rows = [(Within(h, 'ifdef', n), 'LSS_BUILD_OPTION'), (Within(h, 'optional', n), 'LSS_OPTIONAL'), (Within(h, 'boolean', n), 'LSS_BOOLEAN'), (Within(h, 'tunable', n), 'LSS_TUNABLE'),
            (And(rule, lambda_and(lambda: Eq(SV(h, t()), h.lit(b'self')), rule)), 'LSS_SELF'), (OwnRule(h, n, mod), 'LSS_OWN'), (And(known, lambda_and(lambda: Eq(M(), mod), known)), 'LSS_OWN'),
            (And(Not(isv('ORDER_REF')), known, lambda_and(lambda: Eq(prefix(h, M()), prefix(h, mod)), known)), 'LSS_RELATED'),
            (And(known, lambda_and(lambda: Eq(M(), h.lit(b'kernel')), known)), 'LSS_KERNEL_MOD'), (And(Not(isv('ORDER_LIGHT')), inlayer(b'kernel')), 'LSS_KERNEL'), (And(Not(isv('ORDER_LIGHT')), inlayer(b'system')), 'LSS_SYSTEM'),
            (call, 'LSS_OTHER')]
    r = K('LSS_UNKNOWN')
    for q, k in reversed(rows): r = sel(q, lambda: K(k), lambda: r)
    return r
add(Contract('get_local_subsection', pre=lambda h, m, n, v: [modok(h, m)] + nodeok(h, n), value=lambda h, m, n, v: Lss(h, h.S(m), n, v), opts=dict(contracts=NV),
    gen=lambda w: [w.str(gen.G(w).s(False)), gnode(w)[0], w.rng.randrange(3)]), 'P18')

# ---- comparison of two elements
def Cmp(h, od, a, b, v, rec):
    E = h.E; K = lambda x: (E(x) & 0xffffffff) if h.concrete else bv(E(x), 32)
    neg = lambda x: (-E(x)) & 0xffffffff if h.concrete else bv(-E(x), 32)
    A, B = Sec(h, a), Sec(h, b); N, D = h.lit(NONORD), h.lit(DECLS); S = h.f(od, 'ordering_metadata', 'sections'); mod = h.S(h.f(od, 'ordering_metadata', 'mod_name'))
    is_ = lambda x, y: Eq(x, y)
    raw = lambda x: Ne(h.ch(x), ord('_'))
    def later():
        if h.concrete: return h.avg(A, S) > h.avg(B, S)
        return z3.fpGT(Avg(h, A, S), Avg(h, B, S))
    wrong = And(Not(is_(A, D)), Or(is_(B, D), lambda_and(later, Not(is_(B, D)))), Not(And(raw(A), raw(B), h.slt(A, B))))
    dec = And(isfl(h, a, 'NODE_DECL'), isfl(h, b, 'NODE_DECL')); fa, fb = (lambda: decl(h, a, 'flavor')), (lambda: decl(h, b, 'flavor'))
    def first_of(x, y, seq, pos, negv, end):
        r = end
        for k in reversed(seq): r = sel(Eq(x, E(k)), lambda: pos, lambda: sel(Eq(y, E(k)), lambda: negv, lambda: r))
        return r
    def decls(): return sel(dec, lambda: sel(Eq(fa(), fb()), lambda: K('ORDER_EQUAL'), lambda: first_of(fa(), fb(), ('DECL_BOOL', 'DECL_ATTRIBUTE'), K('ORDER_DECLARATION_SUBSECTION'), neg('ORDER_DECLARATION_SUBSECTION'), K('ORDER_EQUAL'))), lambda: K('ORDER_EQUAL'))
    def rules():
        la, lb = Lss(h, mod, a, v), Lss(h, mod, b, v)
        REF = ('LSS_SELF', 'LSS_OWN', 'LSS_KERNEL_MOD', 'LSS_KERNEL', 'LSS_SYSTEM', 'LSS_OTHER', 'LSS_BUILD_OPTION', 'LSS_BOOLEAN', 'LSS_TUNABLE', 'LSS_OPTIONAL')
        LIGHT = ('LSS_SELF', 'LSS_OWN', 'LSS_RELATED', 'LSS_KERNEL_MOD', 'LSS_OTHER', 'LSS_BUILD_OPTION', 'LSS_BOOLEAN', 'LSS_TUNABLE', 'LSS_OPTIONAL')
        p, q = K('ORDER_LOCAL_SUBSECTION'), neg('ORDER_LOCAL_SUBSECTION')
        isv = lambda x: Eq(v, E(x)); two = Or(isv('ORDER_REF'), isv('ORDER_LIGHT'))
        def same():
            calls = And(isfl(h, a, 'NODE_IF_CALL'), isfl(h, b, 'NODE_IF_CALL'))
            top = And(calls, lambda_and(lambda: And(*[Ne(la, E(k)) for k in ('LSS_BUILD_OPTION', 'LSS_BOOLEAN', 'LSS_TUNABLE')], Or(Ne(la, E('LSS_OPTIONAL')), And(Eq(la, lb), isfl(h, prv(h, a), 'NODE_START_BLOCK'), isfl(h, prv(h, b), 'NODE_START_BLOCK')))), calls))
            ma, mb = (lambda: lk(h, 'ifs', icname(h, a))), (lambda: lk(h, 'ifs', icname(h, b)))
            both = And(top, lambda_and(lambda: And(nz(ma()), nz(mb())), top))
            def opts():
                ca, cb = child(h, a), child(h, b)
                blocks = And(Eq(la, E('LSS_OPTIONAL')), Eq(lb, E('LSS_OPTIONAL')), nz(ca), nz(cb), lambda_and(lambda: And(nz(nxt(h, ca)), nz(nxt(h, cb))), And(nz(ca), nz(cb))))
                return sel(blocks, lambda: rec(nxt(h, ca), nxt(h, cb)), lambda: K('ORDER_EQUAL'))
            alpha = lambda: sel(h.slt(h.S(ma()), h.S(mb())), lambda: K('ORDER_ALPHABETICAL'), lambda: sel(h.slt(h.S(mb()), h.S(ma())), lambda: neg('ORDER_ALPHABETICAL'), opts))
            return sel(two, lambda: sel(both, alpha, opts), lambda: K('ORDER_EQUAL'))
        order = lambda: sel(isv('ORDER_REF'), lambda: first_of(la, lb, REF, p, q, same()), lambda: sel(isv('ORDER_LIGHT'), lambda: first_of(la, lb, LIGHT, p, q, same()), lambda: first_of(la, lb, REF[:2], p, q, same())))
        return sel(Or(Eq(la, E('LSS_UNKNOWN')), Eq(lb, E('LSS_UNKNOWN'))), lambda: K('ORDER_EQUAL'), lambda: sel(Eq(la, lb), same, order))
    has = And(HasSec(h, a), HasSec(h, b))
    return sel(Not(has), lambda: K('ORDERING_ERROR'), lambda: sel(Or(is_(A, N), is_(B, N)), lambda: K('ORDER_EQUAL'), lambda: sel(Not(SameSec(h, A, B)), lambda: sel(wrong, lambda: neg('ORDER_SECTION'), lambda: K('ORDER_SECTION')),
        lambda: sel(is_(A, D), decls, rules))))
CmpR = RecFn('Compare', [BV64, BV64, BV64, B32], B32, lambda h, od, a, b, v: Cmp(h, od, a, b, v, lambda x, y: CmpR(h, od, x, y, v)))
def od_ok(h, od): return [('ordering data', And(nz(od), h.valid(od, 'ordering_metadata'))), modok(h, h.f(od, 'ordering_metadata', 'mod_name')),
    ('a list of named sections', And(nz(h.f(od, 'ordering_metadata', 'sections')), h.valid(h.f(od, 'ordering_metadata', 'sections'), 'section_data'), Named(h, h.f(od, 'ordering_metadata', 'sections'))))]
def cmp_pre(h, od, a, b, v=None):
    return od_ok(h, od) + nodeok(h, a) + nodeok(h, b) + [('neither is the first element of its block', And(nz(prv(h, a)), nz(prv(h, b))))]
add(Contract('compare_nodes_refpolicy_generic', pre=cmp_pre, value=lambda h, od, a, b, v: CmpR(h, od, a, b, v), opts=dict(recursive=True, contracts=NV), gen=lambda w: gcmp(w) + [w.rng.randrange(3)]), 'P18')
for fn, k in (('compare_nodes_refpolicy', 'ORDER_REF'), ('compare_nodes_refpolicy_light', 'ORDER_LIGHT'), ('compare_nodes_refpolicy_lax', 'ORDER_LAX')):
    add(Contract(fn, pre=lambda h, od, a, b: cmp_pre(h, od, a, b), value=lambda h, od, a, b, k=k: CmpR(h, od, a, b, h.E(k) if h.concrete else bv(h.E(k), 32)), gen=lambda w: gcmp(w)), 'P18')
