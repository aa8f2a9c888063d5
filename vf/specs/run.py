"""runner.c and check_hooks.c: which checks run, on what, and how their results are accounted for"""
from specs.te import *
import ctypes, gen
from gen import CH

# ------------------------------------------------------------------ P01
def slval(h, l): return [] 
def enabled(h, name, ce, cd, le, ld, only):
    """the last of config-disabled, config-enabled, command-line-disabled, command-line-enabled that names the check decides"""
    i = lambda l: InSL(h, name, l)
    return Or(i(le), And(Not(nz(only)), Not(i(ld)), Or(i(ce), Not(i(cd)))))
LISTS = ('config-enabled', 'config-disabled', 'cl-enabled', 'cl-disabled')
def en_pre(h, n, *a): return [('name is a string', And(nz(n), h.valid(n, 'char')))]
def one(h, b): return If(b, i32_(h, 1), i32_(h, 0))
def i32_(h, v): return v if h.concrete else bv(v, 32)
def gen_lists(g):
    ids = [b'C-001', b'C-005', b'S-002', b'W-003', b'E-007', b'E-005', b'S-00', b'C-0011']
    def l(): return g.w.sl([g.r.choice(ids) if g.r.random() < .8 else g.s() for i in range(g.r.choice([0, 0, 1, 2, 3, 5]))])
    return [l(), l(), l(), l(), int(g.r.random() < .3)]
def gen_en(w):
    g = gen.G(w, [b'C-001', b'S-002', b'E-007'])
    return [w.str(g.r.choice([b'C-001', b'C-005', b'S-002', b'W-003', b'E-007', b'E-005']))] + gen_lists(g)
add(Contract('is_check_enabled', gen=gen_en, pre=en_pre, value=lambda h, n, ce, cd, le, ld, only: one(h, enabled(h, h.S(n), ce, cd, le, ld, only))), 'P01')

SEVMAX = {'C': 'C_END', 'S': 'S_END', 'W': 'W_END', 'E': 'E_END'}
add(Contract('is_valid_severity', value=lambda h, c: Or([Eq(c, ord(x)) for x in 'CSWEF'])), 'P01')
def validcheck(h, p):
    def f():
        s = h.S(p)
        def rest():
            n = h.atoi(h.suf(s, 2)); c = h.ch(s, 0)
            ok = lambda m: And(sgt(h, n, 0), sle(h, n, m))
            r = False
            for x in 'CSWE': r = Or(r, And(Eq(c, ord(x)), ok(h.E(SEVMAX[x]) - 1)))
            return Or(r, And(Eq(c, ord('F')), ok(h.E('F_ID_INTERNAL'))))
        return And(Ne(h.ch(s, 0), 0), lambda_and(lambda: And(Eq(h.ch(s, 1), ord('-')), lambda_and(rest, Eq(h.ch(s, 1), ord('-')))), Ne(h.ch(s, 0), 0)))
    return If(isz(p), False, f)
def sgt(h, a, b): return sx32(a) > b if h.concrete else a > b
def sle(h, a, b): return sx32(a) <= b if h.concrete else a <= b
def sx32(a): return a - (1 << 32) if a >> 31 else a
def gen_vc(w):
    r = w.rng
    s = r.choice([b'C', b'S', b'W', b'E', b'F', b'X', b'c', b'']) + r.choice([b'-', b'-', b'-', b'', b'_']) + r.choice([b'0', b'00', b'']) + str(r.choice([0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 99])).encode() + r.choice([b'', b'', b'a'])
    return [w.str(s)]
add(Contract('is_valid_check', gen=gen_vc, pre=lambda h, p: [('null or a string', Or(isz(p), h.valid(p, 'char')))], value=lambda h, p: one(h, validcheck(h, p))), 'P01')

# ------------------------------------------------------------------ P02
T = []
def reg(cid, fn, *fls, cond=None):
    for f in fls: T.append((cid, 'NODE_' + f, fn, cond))
USES = ['AV_RULE', 'XAV_RULE', 'IF_CALL', 'TT_RULE', 'RT_RULE', 'ROLE_ALLOW', 'ROLE_TYPES', 'ALIAS', 'TYPE_ALIAS', 'TYPE_ATTRIBUTE', 'ROLE_ATTRIBUTE', 'PERMISSIVE', 'DECL']
reg('C-001', 'check_te_order', 'TE_FILE', 'DECL', 'AV_RULE', 'XAV_RULE', 'IF_CALL', 'TT_RULE', 'CLEANUP')
reg('C-004', 'check_interface_definitions_have_comment', 'INTERFACE_DEF', 'TEMP_DEF')
reg('C-005', 'check_unordered_perms', 'AV_RULE', 'XAV_RULE', 'DECL')
reg('C-006', 'check_unordered_declaration_in_require', 'REQUIRE', 'GEN_REQ')
reg('C-007', 'check_no_self', 'AV_RULE', 'XAV_RULE')
reg('S-001', 'check_require_block', 'REQUIRE', 'GEN_REQ')
reg('S-002', 'check_file_context_types_in_mod', 'FC_ENTRY')
reg('S-003', 'check_useless_semicolon', 'SEMICOLON')
reg('S-004', 'check_if_calls_template', 'IF_CALL')
reg('S-005', 'check_decl_in_if', 'DECL')
reg('S-006', 'check_bare_module_statement', 'HEADER')
reg('S-007', 'check_gen_context_no_range', 'FC_ENTRY')
reg('S-008', 'check_unquoted_gen_require_block', 'GEN_REQ')
reg('S-009', 'check_perm_macro_class_mismatch', 'AV_RULE')
reg('S-010', 'check_perm_macro_available', 'AV_RULE')
reg('W-001', 'check_no_explicit_declaration', *USES)
reg('W-002', 'check_name_used_but_not_required_in_if', *USES)
reg('W-003', 'check_name_required_but_not_used_in_if', 'DECL')
reg('W-004', 'check_file_context_regex', 'FC_ENTRY')
reg('W-005', 'check_module_if_call_in_optional', 'IF_CALL')
reg('W-006', 'check_empty_if_call_arg', 'IF_CALL')
reg('W-007', 'check_space_if_call_arg', 'IF_CALL')
reg('W-008', 'check_risky_allow_perm', 'AV_RULE')
reg('W-009', 'check_module_file_name_mismatch', 'HEADER')
reg('W-010', 'check_unknown_interface_call', 'IF_CALL')
reg('W-011', 'check_required_declaration_own', 'DECL')
reg('E-002', 'check_file_context_error_nodes', 'ERROR')
reg('E-003', 'check_file_context_users', 'FC_ENTRY')
reg('E-004', 'check_file_context_roles', 'FC_ENTRY')
reg('E-005', 'check_file_context_types_exist', 'FC_ENTRY')
reg('E-006', 'check_declaration_interface_nameclash', 'DECL')
reg('E-007', 'check_unknown_permission', 'AV_RULE', cond='perm')
reg('E-008', 'check_unknown_class', 'AV_RULE', 'RT_RULE', 'TT_RULE', cond='class')
reg('E-009', 'check_empty_block', 'OPTIONAL_POLICY', 'GEN_REQ', 'REQUIRE')
reg('E-010', 'check_stray_word', 'M4_SIMPLE_MACRO')
RANK = {'C': 0, 'S': 1, 'W': 2, 'E': 3, 'F': 4}
def cond(h, c):
    if c == 'perm': return And(Ne(h.count('permmacros'), 0), Ne(h.count('decl', h.E('DECL_PERM')), 0))
    if c == 'class': return Ne(h.count('decl', h.E('DECL_CLASS')), 0)
    return True
def h_count(h, m, *a): return h.uf('count_' + m, [B32] * len(a) + [B32], *[h.ctx.coerce(x, B32) for x in a])
Heap.count = h_count
def h_atoi(h, s): return h.uf('atoi', [Str, B32], s)
Heap.atoi = h_atoi
import cx
def c_count(h, m, *a): return h.w.nat.fn({'decl': 'decl_map_count', 'permmacros': 'permmacros_map_count'}[m])(*a)
cx.CHeap.count = c_count
def c_atoi(h, s):
    m = re.match(rb'[ \t\n\v\f\r]*([+-]?\d+)', s); return (int(m.group(1)) if m else 0) & 0xffffffff
cx.CHeap.atoi = c_atoi
add(Contract('decl_map_count', value=lambda h, f: h.count('decl', f), trusted=True, why='number of symbols of a kind; property P08'))
add(Contract('permmacros_map_count', value=lambda h: h.count('permmacros'), trusted=True, why='number of permission macros'))
add(Contract('check_unknown_permission_condition', value=lambda h: cond(h, 'perm')), 'P02', 'P15')
add(Contract('check_unknown_class_condition', value=lambda h: cond(h, 'class')), 'P02', 'P15')

def level_ok(lvl, sev):
    return Or([Eq(lvl, ord(l)) for l in 'CSWEF' if RANK[l] <= RANK[sev]])
class Reg:
    """ghost record of the add_check events of one symbolic run"""
def ev_add(c, mem, pc, fl, ck, idp, fn):
    ev = c.__dict__.setdefault('reg_events', [])
    if not (z3.is_bv_value(fl) and z3.is_bv_value(idp) and z3.is_bv_value(fn)): raise Unsupported('registration with non-constant arguments')
    ev.append((c.litaddr[idp.as_long()].decode(), fl.as_long(), c.fnat.get(fn.as_long(), '?'), pc, ck))
    r = c.fresh('add_check', B32)
    return r
def ms(c, mem, a, pc, line, who):
    if z3.is_bv_value(a[1]) and a[1].as_long() == 0 and z3.is_bv_value(a[2]) and a[2].as_long() >= c.struct_size('checks'):
        c.__dict__.setdefault('reg_clear', []).append((a[0], pc)); return True
    return False
def reg_final(c, ex, m0, m1, pc, rv, args):
    h0 = Heap(c, m0); lvl = args[0]
    names = {v: k for k, v in c.prog.enums.items() if k.startswith('NODE_') and isinstance(v, int)}
    ev = getattr(c, 'reg_events', [])
    known = Or([Eq(lvl, ord(l)) for l in 'CSWEF'])
    c.oblige('register_checks: fails exactly for an unknown level', 'post', pc, Iff(rv == 0, Not(known)), None, then_assume=False)
    clear = [x for x in getattr(c, 'reg_clear', [])]
    for z in getattr(c, 'zeroed', []): clear.append((z, TRUE))
    for x in ev:
        c.oblige('register_checks: %s is added to the cleared registry that is returned' % x[0], 'post', And(pc, x[3]),
                 And(x[4] == rv, Or([And(x[4] == z, p) for z, p in clear])), None, then_assume=False)
    want = {}
    for cid, fl, fn, cd in T:
        k = (cid, c.prog.enums[fl], fn)
        if fn in ('check_unknown_permission', 'check_unknown_class') or True: pass
        want[k] = And(level_ok(lvl, cid[0]), enabled(h0, c.lit(cid.encode()), *args[1:]), cond(h0, cd))
    for k in sorted(set(want) | {x[:3] for x in ev}):
        w = want.get(k, False)
        pcs = [x[3] for x in ev if x[:3] == k]
        nm = '%s on %s by %s' % (k[0], names.get(k[1], k[1]), k[2])
        c.oblige('register_checks: %s is registered exactly when enabled and at or above the level' % nm, 'post', TRUE, Implies(known, Iff(Or(pcs), w)) if pcs else Implies(known, Not(w)), None, then_assume=False)
        for i in range(len(pcs)):
            for j in range(i): c.oblige('register_checks: %s is registered only once' % nm, 'post', And(pcs[i], pcs[j]), FALSE, None, then_assume=False)
def reg_case(con, nat, w):
    g = gen.G(w, [b'C-001', b'S-002']); g.maps()
    r = w.rng
    if r.random() < .7:
        for b, s in ((b'p', 'DECL_PERM'), (b'c', 'DECL_CLASS')): nat.fn('insert_into_decl_map')(w.str(b), w.str(b'm'), w.E(s))
        if nat.addr('insert_into_permmacros_map') and r.random() < .5: nat.fn('insert_into_permmacros_map')(w.str(b'pm'), nat.fn('copy_string_list')(w.sl([b'a'])))
    L = gen_lists(g); lvl = ord(r.choice('CSWEFCSWEFX'))
    ids = sorted({x[0] for x in T})
    L = [w.sl([r.choice(ids).encode() for i in range(r.choice([0, 0, 1, 3, 8]))]) for j in range(4)] + [int(r.random() < .3)]
    h = CH(w)
    want = [(h.E(fl), cid, nat.addr(fn)) for cid, fl, fn, cd in T if level_ok(lvl, cid[0]) and enabled(h, cid.encode(), *L) and cond(h, cd)]
    p = nat.fn('register_checks')(lvl, *L)
    inp = dict(level=chr(lvl), lists=[cx.show(h, ('ptr', ('struc', 'string_list')), x, 0) for x in L[:4]], only_enabled=L[4])
    if (p == 0) != (chr(lvl) not in 'CSWEF'): return dict(obligation='register_checks: fails exactly for an unknown level', actual='returned %x' % p, input=inp)
    if not p: return None
    got = []
    for fl in range(h.arrlen('checks', 'check_nodes')):
        n = h.fidx(p, 'checks', 'check_nodes', fl)
        while n: got.append((fl, h.S(h.f(n, 'check_node', 'check_id')).decode(), h.f(n, 'check_node', 'check_function'))); n = h.f(n, 'check_node', 'next')
    if sorted(got) != sorted(want):
        names = h.prog.enums['enum node_flavor']
        return dict(obligation='register_checks: registered checks are exactly the enabled ones at or above the level', input=inp,
            missing=['%s on %s' % (x[1], names[x[0]]) for x in want if x not in got], unexpected=['%s on %s' % (x[1], names[x[0]]) for x in got if x not in want] + (['duplicates'] if len(set(got)) != len(got) else []))
EV = Contract('add_check', effects=ev_add, label='event', trusted=True, why='event abstraction of add_check; the function itself is verified under its own contract')
add(Contract('register_checks', pre=lambda h, *a: [], final=reg_final, opts=dict(memset=ms, contracts={'add_check': EV}, noframe=True), case=reg_case), 'P02')

# ------------------------------------------------------------------ add_check itself: appends
Last = RecFn('LastCk', [BV64], BV64, lambda h, n: If(isz(h.f(n, 'check_node', 'next')), n, lambda: Last(h, h.f(n, 'check_node', 'next'))))
CNF = ('check_function', 'check_id', 'issues_found', 'next')
def head_(h, ck, fl): return h.fidx(ck, 'checks', 'check_nodes', fl)
def ac_post(h0, h1, r, fl, ck, idp, fn):
    hd = head_(h0, ck, fl)
    new = If(isz(hd), lambda: head_(h1, ck, fl), lambda: h1.f(Last(h0, hd), 'check_node', 'next'))
    return [('succeeds', Eq(r, h0.E('SELINT_SUCCESS'))),
            ('the earlier checks of this kind of element stay in front', Or(isz(hd), Eq(head_(h1, ck, fl), hd))),
            ('a new entry is appended', And(nz(new), isnew(h0, new))),
            ('with the given function', Eq(h1.f(new, 'check_node', 'check_function'), fn)),
            ('with a copy of the given identifier', Eq(h1.S(h1.f(new, 'check_node', 'check_id')), h0.S(idp))),
            ('with no issues counted', Eq(h1.f(new, 'check_node', 'issues_found'), 0)),
            ('as the last entry', isz(h1.f(new, 'check_node', 'next')))]
def isnew(h, p): return True if h.concrete else h.ctx.tag0(p) == 0
def ac_mod(h, fl, ck, idp, fn):
    hd = head_(h, ck, fl)
    import z3 as _z
    o = [o for n, d, o in h.ctx.prog.structs['checks'] if n == 'check_nodes'][0]
    return [(('check_node', 'next'), [Last(h, hd)]), (('checks', 'check_nodes'), [z3.simplify(ck + o + 8 * z3.ZeroExt(32, fl))])]
def ac_pre(h, fl, ck, idp, fn):
    return [('registry valid', And(nz(ck), h.valid(ck, 'checks'))), ('kind of element in range', ULE(fl, h.E('NODE_ERROR'))), ('identifier is a string', And(nz(idp), h.valid(idp, 'char'))),
            ('table entry is null or a valid node', True if h.concrete else Or(isz(head_(h, ck, fl)), h.valid(head_(h, ck, fl), 'check_node')))]
def ac_case(con, nat, w):
    r = w.rng; ck = w.obj('checks'); nfl = CH(w).arrlen('checks', 'check_nodes')
    model = {}
    fls = [r.randrange(nfl) for i in range(3)]
    for i in range(r.randrange(1, 9)):
        fl = r.choice(fls); cid = b'%c-%03d' % (r.choice(b'CSWE'), r.randrange(12)); fn = 0x10000 + i
        rc = nat.fn('add_check')(fl, ck, w.str(cid), fn)
        model.setdefault(fl, []).append((cid, fn))
        h = CH(w)
        for f in range(nfl):
            n = h.fidx(ck, 'checks', 'check_nodes', f); got = []
            while n and len(got) < 20: got.append((h.S(h.f(n, 'check_node', 'check_id')), h.f(n, 'check_node', 'check_function'), h.f(n, 'check_node', 'issues_found'))); n = h.f(n, 'check_node', 'next')
            if got != [x + (0,) for x in model.get(f, [])] or rc != 0:
                return dict(obligation='add_check: appends the new check and keeps the earlier ones', input=repr(model), actual=repr((f, got, rc)))
add(Contract('add_check', label='append', pre=ac_pre, post=ac_post, modifies=ac_mod, ptr_types=('check_node',), opts=dict(contracts={}), case=ac_case,
    tails=[lambda h, p: Last(h, p)]), 'P02')
# ------------------------------------------------------------------ P06
def sevrank(h, c): return If(Eq(c, ord('C')), i32_(h, 0), lambda: If(Eq(c, ord('S')), i32_(h, 1), lambda: If(Eq(c, ord('W')), i32_(h, 2), lambda: i32_(h, 3))))
COUNTED = [('C', 'S'), ('C', 'W')]
def is_lt(h, a, b): return sx32(a) < sx32(b) if h.concrete else a < b
def cc_id(h, pp): return h.S(h.f(pp, 'check_node', 'check_id'))
def cc_cmp(h, n1, n2):
    """-1/0/1 by severity (C < S < W < E), then by number"""
    s1, s2 = cc_id(h, n1), cc_id(h, n2)
    r1, r2 = sevrank(h, h.ch(s1, 0)), sevrank(h, h.ch(s2, 0))
    i1, i2 = h.atoi(h.suf(s1, 2)), h.atoi(h.suf(s2, 2))
    m1 = i32_(h, -1) & 0xffffffff if h.concrete else bv(-1, 32)
    return If(is_lt(h, r1, r2), m1, lambda: If(is_lt(h, r2, r1), i32_(h, 1), lambda: If(Eq(i1, i2), i32_(h, 0), lambda: If(is_lt(h, i1, i2), m1, lambda: i32_(h, 1)))))
def cc_node(h, p): return h.deref(p, 'ptr') if h.concrete else h.ctx.select(h.region(('cell', 64)), p)
def cc_pre(h, a, b):
    out = []
    for i, p in ((1, a), (2, b)):
        n = cc_node(h, p)
        out += [('argument %d refers to a check' % i, And(nz(p), True if h.concrete else h.ctx.valid({}, p, 'cell'), nz(n), h.valid(n, 'check_node')))]
        s = cc_id(h, n)
        out += [('its identifier is a severity letter, a dash and a number', And(Or([Eq(h.ch(s, 0), ord(x)) for x in 'CSWE']), Ne(h.ch(s, 1), 0)))]
    return out
def c_deref(h, p, ty): return int.from_bytes(h.mem(p, 8), 'little')
cx.CHeap.deref = c_deref
def gen_cc(w):
    r = w.rng
    def one():
        n = w.obj('check_node', check_id=b'%c-%03d' % (r.choice(b'CSWE'), r.randrange(1, 12)), check_function=1, issues_found=0, next=0)
        p = w.alloc(8); ctypes.memmove(p, n.to_bytes(8, 'little'), 8); return p
    return [one(), one()]
add(Contract('comp_check_nodes', gen=gen_cc, pre=cc_pre, post=lambda h0, h1, r, a, b: [('sign follows severity, then number', sign_eq(h0, r, cc_cmp(h0, cc_node(h0, a), cc_node(h0, b))))]), 'P06')
def sign_eq(h, r, s):
    z = i32_(h, 0)
    return And(Iff(is_lt(h, r, z), is_lt(h, s, z)), Iff(is_lt(h, z, r), is_lt(h, z, s)))
Len = RecFn('LenCk', [BV64], B32, lambda h, n: If(isz(n), i32_(h, 0), lambda: add32(i32_(h, 1), Len(h, h.f(n, 'check_node', 'next')))))
def add32(a, b): return (a + b) & 0xffffffff if conc(a, b) else a + b
Sum = RecFn('SumCk', [BV64, B32], B32, lambda h, ck, i: If(sgt(h, i, h.E('NODE_ERROR')), i32_(h, 0), lambda: add32(Len(h, h.fidx(ck, 'checks', 'check_nodes', i)), Sum(h, ck, add32(i, i32_(h, 1))))))
def gen_ck(w):
    r = w.rng
    def lst():
        n = 0
        for i in range(r.choice([0, 0, 0, 1, 2, 3])): n = w.obj('check_node', check_id=b'%c-%03d' % (r.choice(b'CSWE'), r.randrange(1, 12)), check_function=1, issues_found=r.randrange(4), next=n)
        return n
    return [w.obj('checks', check_nodes=[lst() for i in range(CH(w).arrlen('checks', 'check_nodes'))])]
def ck_wf(h, ck): return [('registry valid', And(nz(ck), h.valid(ck, 'checks')))]
def inv_i(h, A, L, i): return And(i >= 0, i <= h.E('NODE_ERROR') + 1)
def inv_sum(h, A, L, i, n): return n + Sum(h, A[0], i) == Sum(h, A[0], bv(0, 32))
add(Contract('count_check_nodes', gen=gen_ck, pre=ck_wf, value=lambda h, ck: Sum(h, ck, i32_(h, 0)), ptr_types=('check_node',), tails=[lambda h, p: Len(h, p)], opts=dict(nounroll_all=True),
   inv=[('kind of element in range', inv_i), ('partial sum', inv_sum)]), 'P06')

def lemma_order(c, ex):
    R = [z3.BitVec('r%d' % i, 32) for i in range(3)]; I = [z3.BitVec('i%d' % i, 32) for i in range(3)]
    def cmp(a, b): return z3.If(R[a] < R[b], bv(-1, 32), z3.If(R[b] < R[a], bv(1, 32), z3.If(I[a] == I[b], bv(0, 32), z3.If(I[a] < I[b], bv(-1, 32), bv(1, 32)))))
    c.oblige('order lemma: antisymmetric', 'lemma', TRUE, cmp(0, 1) == -cmp(1, 0), None, then_assume=False)
    c.oblige('order lemma: transitive', 'lemma', TRUE, Implies(And(cmp(0, 1) <= 0, cmp(1, 2) <= 0), cmp(0, 2) <= 0), None, then_assume=False)
    c.oblige('order lemma: equal exactly when severity and number agree', 'lemma', TRUE, Iff(cmp(0, 1) == 0, And(R[0] == R[1], I[0] == I[1])), None, then_assume=False)
add(Contract('comp_check_nodes', label='order lemma', ghost_pure=True, final=lemma_order, case=lambda con, nat, w: None), 'P06')

# ------------------------------------------------------------------ P04, P05, P03: ghost trace of check calls and printed reports
Trace = z3.DeclareSort('Trace')
def tr(h): return h.ghost('trace', Trace)
def u_call(h, t, fn, d, n): return h.uf('ev_call', [Trace, BV64, BV64, BV64, Trace], t, fn, d, n)
def u_issue(h, t, fn, d, n): return h.uf('res_issue', [Trace, BV64, BV64, BV64, BOOL], t, fn, d, n)
def u_res(h, k, so, t, fn, d, n): return h.uf('res_' + k, [Trace, BV64, BV64, BV64, so], t, fn, d, n)
def u_disp(h, t, sev, idv, msg, line, d): return h.uf('ev_disp', [Trace, z3.BitVecSort(8), B32, Str, B32, BV64, Trace], t, sev, idv, msg, line, d)
def ind_call(c, mem, fv, args, pc, line, who):
    h = Heap(c, mem); t = tr(h); d, n = args
    c.oblige('%s: a check function is called with valid arguments' % who, 'pre', pc, And(Ne(fv, bv(0)), Ne(d, bv(0)), Ne(n, bv(0))), line)
    p = c.malloc(mem, None, pc, 'check_result'); m = c.malloc(mem, None, pc, 'char')
    vals = dict(severity=u_res(h, 'sev', z3.BitVecSort(8), t, fv, d, n), check_id=u_res(h, 'id', B32, t, fv, d, n), message=m, lineno=c.fresh('lineno0', B32))
    for f, v in vals.items():
        r = ('check_result', f); c.setregion(mem, r, z3.Store(c.region(mem, r), p, v))
    c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), m, u_res(h, 'msg', Str, t, fv, d, n)))
    c.setregion(mem, ('ghost', 'trace'), z3.If(pc, u_call(h, t, fv, d, n), t) if False else u_call(h, t, fv, d, n))
    return z3.If(u_issue(h, t, fv, d, n), p, bv(0))
def ev_display(c, mem, pc, res, d):
    h = Heap(c, mem)
    t = u_disp(h, tr(h), h.f(res, 'check_result', 'severity'), h.f(res, 'check_result', 'check_id'), h.S(h.f(res, 'check_result', 'message')), h.f(res, 'check_result', 'lineno'), d)
    c.setregion(mem, ('ghost', 'trace'), t)
DISP = Contract('display_check_result', label='event', pre=lambda h, res, d: [('result and file data are valid', And(nz(res), h.valid(res, 'check_result'), nz(d)))], effects=ev_display, trusted=True,
                why='prints one report line; its text is a function of the result and the file data')
def suppressed(h, cur, n):
    ex = h.f(n, 'policy_node', 'exceptions')
    return And(nz(ex), lambda_and(lambda: h.has(h.S(ex), h.S(h.f(cur, 'check_node', 'check_id'))), nz(ex)))
def aft(h, t, cur, d, n):
    fn = h.f(cur, 'check_node', 'check_function')
    t1 = u_call(h, t, fn, d, n)
    a = (t, fn, d, n)
    t2 = z3.If(h.g('suppress_output') != 0, t1, u_disp(h, t1, u_res(h, 'sev', z3.BitVecSort(8), *a), u_res(h, 'id', B32, *a), u_res(h, 'msg', Str, *a), h.f(n, 'policy_node', 'lineno'), d))
    return z3.If(u_issue(h, *a), t2, t1), u_issue(h, *a)
def nxc(h, cur): return h.f(cur, 'check_node', 'next')
CT = RecFn('CT', [Trace, BV64, BV64, BV64], Trace, lambda h, t, cur, d, n: If(isz(cur), t, lambda: If(suppressed(h, cur, n), lambda: CT(h, t, nxc(h, cur), d, n), lambda: CT(h, aft(h, t, cur, d, n)[0], nxc(h, cur), d, n))))
ArrS = z3.ArraySort(BV64, B32)
CN = RecFn('CN', [ArrS, Trace, BV64, BV64, BV64], ArrS, lambda h, a, t, cur, d, n: If(isz(cur), a, lambda: If(suppressed(h, cur, n), lambda: CN(h, a, t, nxc(h, cur), d, n),
     lambda: CN(h, z3.If(aft(h, t, cur, d, n)[1], z3.Store(a, cur, a[cur] + 1), a), aft(h, t, cur, d, n)[0], nxc(h, cur), d, n))))
CF = RecFn('CF', [Trace, BV64, BV64, BV64], BOOL, lambda h, t, cur, d, n: If(isz(cur), False, lambda: If(suppressed(h, cur, n), lambda: CF(h, t, nxc(h, cur), d, n),
     lambda: Or(aft(h, t, cur, d, n)[1], CF(h, aft(h, t, cur, d, n)[0], nxc(h, cur), d, n)))))
def cnts(h): return h.region(('check_node', 'issues_found'))
def cc_posts(h0, h1, r, ckl, d, n):
    return [('returns success', Eq(r, h0.E('SELINT_SUCCESS'))),
            ('runs exactly the checks not named in the suppression text, in order, and prints each issue once', Eq(tr(h1), CT(h0, tr(h0), ckl, d, n))),
            ('counts each issue exactly once, at its own check', cnts(h1) == CN(h0, cnts(h0), tr(h0), ckl, d, n)),
            ('remembers whether an issue was found', Eq(h1.g('found_issue'), If(CF(h0, tr(h0), ckl, d, n), bv(1, 32), h0.g('found_issue'))))]
CCMOD = [(('ghost', 'trace'), 'val'), (('check_node', 'issues_found'), '*'), (('g', '.found_issue', 0), 'val')]
from specs.tracecase import trace_case as cc_case
def node_ok(h, d, n): return [('file data is valid', And(nz(d), h.valid(d, 'check_data'))), ('element is valid', And(nz(n), h.valid(n, 'policy_node')))]
OPTS = dict(indirect=ind_call, contracts={'display_check_result': DISP})
def ghosty(c, mem, args): c.ghost(mem, 'trace', Trace)
add(Contract('call_checks_for_node_type', pre=lambda h, ckl, d, n: [('list valid', Or(isz(ckl), h.valid(ckl, 'check_node')))] + node_ok(h, d, n), post=cc_posts, modifies=CCMOD, setup=ghosty, opts=OPTS, case=cc_case, ptr_types=('check_node', 'policy_node'),
   tails=[lambda h, p: CT(h, tr(h), p, *h.ctx.root_args[1:3]), lambda h, p: CN(h, cnts(h), tr(h), p, *h.ctx.root_args[1:3]),
          lambda h, p: z3.If(CF(h, tr(h), p, *h.ctx.root_args[1:3]), bv(1, 32), h.g('found_issue'))]), 'P04', 'P05')
def hd_of(h, ck, n): return head_(h, ck, FL(h, n))
def cl_posts(h0, h1, r, ck, d, n): return cc_posts(h0, h1, r, hd_of(h0, ck, n), d, n)
add(Contract('call_checks', pre=lambda h, ck, d, n: ck_wf(h, ck) + node_ok(h, d, n), post=cl_posts, modifies=CCMOD, setup=ghosty, opts=OPTS, case=cc_case, ptr_types=('check_node', 'policy_node')), 'P04', 'P05', 'P03')

def vis(h, t, ck, d, n): return CT(h, t, hd_of(h, ck, n), d, n)
VT = RecFn('VT', [Trace, BV64, BV64, BV64], Trace, lambda h, t, ck, d, n: If(isz(n), t, lambda: VT(h, vis(h, t, ck, d, n), ck, d, Next(h, n))))
VN = RecFn('VN', [ArrS, Trace, BV64, BV64, BV64], ArrS, lambda h, a, t, ck, d, n: If(isz(n), a, lambda: VN(h, CN(h, a, t, hd_of(h, ck, n), d, n), vis(h, t, ck, d, n), ck, d, Next(h, n))))
VF = RecFn('VF', [Trace, BV64, BV64, BV64], BOOL, lambda h, t, ck, d, n: If(isz(n), False, lambda: Or(CF(h, t, hd_of(h, ck, n), d, n), VF(h, vis(h, t, ck, d, n), ck, d, Next(h, n)))))
CLEAN = 'NODE_CLEANUP'
u_clean = lambda h, t, ck, d: h.uf('ev_cleanup', [Trace, BV64, BV64, Trace], t, ck, d)
def ev_calls(c, mem, pc, ck, d, n):
    """effect of call_checks as established by its contract; a blank clean-up element is recorded as such"""
    h = Heap(c, mem); t = tr(h)
    if n.get_id() in c.__dict__.get('stackobj', {}):
        c.oblige('run_checks_on_one_file: the element made up after the last one is a blank clean-up element', 'pre', pc,
                 And([Eq(FL(h, n), h.E(CLEAN))] + [isz(h.f(n, 'policy_node', f)) for f in ('parent', 'next', 'prev', 'first_child', 'exceptions', 'lineno')]), None)
        c.setregion(mem, ('ghost', 'trace'), u_clean(h, t, ck, d)); return bv(0, 32)
    c.setregion(mem, ('check_node', 'issues_found'), CN(h, cnts(h), t, hd_of(h, ck, n), d, n))
    c.setregion(mem, ('g', '.found_issue', 0), z3.If(CF(h, t, hd_of(h, ck, n), d, n), bv(1, 32), h.g('found_issue')))
    c.setregion(mem, ('ghost', 'trace'), vis(h, t, ck, d, n))
    return bv(0, 32)
CALLS = Contract('call_checks', label='trace', pre=lambda h, ck, d, n: ck_wf(h, ck) + node_ok(h, d, n), effects=ev_calls, trusted=True, why='trace view of call_checks; established by its own contract')
def file_posts(h0, h1, r, ck, d, n):
    return [('returns success', Eq(r, h0.E('SELINT_SUCCESS'))),
            ('every element is checked exactly once in source order, then the clean-up element', Eq(tr(h1), u_clean(h0, VT(h0, tr(h0), n, ck, d), ck, d)) if False else Eq(tr(h1), u_clean(h0, VT(h0, tr(h0), ck, d, n), ck, d))),
            ('the counters grow exactly by the issues found', cnts(h1) == VN(h0, cnts(h0), tr(h0), ck, d, n)),
            ('remembers whether an issue was found', Eq(h1.g('found_issue'), If(VF(h0, tr(h0), ck, d, n), bv(1, 32), h0.g('found_issue'))))]
add(Contract('run_checks_on_one_file', pre=lambda h, ck, d, n: ck_wf(h, ck) + [('file data is valid', And(nz(d), h.valid(d, 'check_data'))), ('tree is valid', Or(isz(n), h.valid(n, 'policy_node')))],
   post=file_posts, modifies=CCMOD, setup=ghosty, opts=dict(contracts={'call_checks': CALLS}, heap_structs=('policy_node',)), case=cc_case, ptr_types=('policy_node',),
   tails=[lambda h, p: VT(h, tr(h), h.ctx.root_args[0], h.ctx.root_args[1], p), lambda h, p: VN(h, cnts(h), tr(h), h.ctx.root_args[0], h.ctx.root_args[1], p),
          lambda h, p: z3.If(VF(h, tr(h), h.ctx.root_args[0], h.ctx.root_args[1], p), bv(1, 32), h.g('found_issue'))]), 'P03', 'P05')
# ---- the suppression text of an element
FindS = RecFn('FindS', [Str, BV64], BV64, lambda h, s, k: If(Or(Eq(h.ch(s, k), 0), Eq(h.ch(s, k), ord('s'))), k, lambda: FindS(h, s, k + 1)))
def b64(h, v): return v if h.concrete else bv(v)
def firsts(h, comm): return FindS(h, h.S(comm), b64(h, 0))
def sc_ok(h, cur, comm):
    s = h.suf(h.S(comm), firsts(h, comm))
    return And(h.startsw(s, b'selint-'), lambda_and(lambda: h.startsw(h.suf(h.S(comm), firsts(h, comm) + 7), b'disable:'), h.startsw(s, b'selint-')))
def sc_post(h0, h1, r, cur, comm):
    bad = Or(isz(cur), isz(comm))
    ok = If(bad, False, lambda: sc_ok(h0, cur, comm))
    return [('a missing element or comment is refused', Implies(bad, Eq(r, h0.E('SELINT_BAD_ARG')))),
            ('succeeds exactly for a disable comment', Implies(Not(bad), And(Iff(Eq(r, h0.E('SELINT_SUCCESS')), ok), Iff(Eq(r, h0.E('SELINT_PARSE_ERROR')), Not(ok))))),
            ('the suppression text is everything after disable:', If(ok, lambda: And(nz(h1.f(cur, 'policy_node', 'exceptions')), Eq(h1.S(h1.f(cur, 'policy_node', 'exceptions')), h0.suf(h0.S(comm), firsts(h0, comm) + 15))), True)),
            ('otherwise the element keeps its suppression text', If(Or(bad, ok), True, lambda: Eq(h1.f(cur, 'policy_node', 'exceptions'), h0.f(cur, 'policy_node', 'exceptions'))))]
def gen_sc(w):
    g = gen.G(w); r = w.rng
    n = g.tree(['NODE_AV_RULE'])[1]
    c = r.choice([b'#selint-disable:', b'#selint-disable: ', b'# selint-disable:', b'#selint-enable:', b'#selint', b'#xselint-disable:', b'#', b'']) + r.choice([b'C-001', b'W-003,E-007', b'C-001, S-002', b''])
    return [n if r.random() < .95 else 0, w.str(c) if r.random() < .95 else 0]
from specs.ifc import woff
def fsinv(h, A, L, p):
    a = woff(L, L.combo[0], p)
    return None if a is None else FindS(h, h.S(a[0]), a[1]) == FindS(h, h.S(A[1]), bv(0))
add(Contract('save_command', gen=gen_sc, pre=lambda h, cur, comm: [('element null or valid', Or(isz(cur), h.valid(cur, 'policy_node'))), ('comment null or a string', Or(isz(comm), h.valid(comm, 'char')))],
    post=sc_post, modifies=lambda h, cur, comm: [(('policy_node', 'exceptions'), [cur])], inv=[('first s', fsinv)]), 'P04')

# ---- printing the summary: bounded stand-in
def sum_case(con, nat, w):
    import specs.tracecase as tracecase
    r = w.rng; ck = w.obj('checks'); m = {}; arr = []
    ids = r.sample([b'%c-%03d' % (x, i) for x in b'CSWE' for i in (1, 2, 3, 9, 10, 11)], r.randrange(1, 9))
    n = w.fld('checks', 'check_nodes')[0][2]
    for f in range(n):
        l = 0
        if r.random() < .4:
            for i in range(r.randrange(1, 4)):
                k = r.choice(ids); c = r.choice([0, 0, 1, 2, 7, 100000]); m[k] = m.get(k, 0) + c
                l = w.obj('check_node', check_id=k, check_function=1, issues_found=c, next=l)
        arr.append(l)
    w.set(ck, 'checks', 'check_nodes', arr)
    rc, out = tracecase.captured(lambda: nat.fn('display_check_issue_counts')(ck))
    got = re.sub(rb'\x1b\[[0-9;]*m', b'', out).split(b'\n')[:-1]
    want = [b'%s: %d' % (k, m[k]) for k in sorted(m, key=lambda k: (b'CSWE'.index(k[:1]), int(k[2:]))) if m[k]] or [b'(none)']
    if got != want: return dict(obligation='display_check_issue_counts: one line per check with issues, in order, with the sum over its registrations', expected=repr(want), actual=repr(got), input=repr(sorted(m.items())))
import re
bounded('display_check_issue_counts', 'summary', 'random tables: up to 8 identifiers registered for up to all element kinds with up to 3 checks each', 1200, sum_case, 'P06')
