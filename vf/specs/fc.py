"""fc_checks.c: checks on file-context entries"""
from specs.te import *

def ctx(h, n): return h.f(ND(h, n), 'fc_entry', 'context')
def cf(h, n, f): return h.f(ctx(h, n), 'sel_context', f)
def withctx(f): return lambda h, d, n: If(isz(ctx(h, n)), False, lambda: f(h, d, n))
FC = ('NODE_FC_ENTRY',)
def s002(h, d, n):
    c = h.f(d, 'check_data', 'config_check_data'); fn = h.S(h.f(d, 'check_data', 'filename'))
    gen = And(nz(h.f(c, 'config_check_data', 'skip_checking_generated_fcs')), Or(Eq(fn, h.lit(b'base.fc')), Eq(fn, h.lit(b'all_mods.fc')), h.endsw(fn, b'.mod.fc')))
    m = lk(h, 'decl', h.S(cf(h, n, 'type')), h.E('DECL_TYPE'))
    return And(Not(gen), If(isz(m), False, lambda: Ne(h.S(m), h.S(h.f(d, 'check_data', 'mod_name')))))
chk('check_file_context_types_in_mod', ['P13'], withctx(s002), 'S', 'S_ID_FC_TYPE', FC, genopts=dict(extra=(b'base.fc', b'all_mods.fc', b'a.mod.fc')))
chk('check_gen_context_no_range', ['P13'], withctx(lambda h, d, n: And(nz(cf(h, n, 'has_gen_context')), isz(cf(h, n, 'range')))), 'S', 'S_ID_MISSING_RANGE', FC)
chk('check_file_context_error_nodes', ['P13'], lambda h, d, n: isfl(h, n, 'NODE_ERROR'), 'E', 'E_ID_FC_ERROR', ())
def undecl(f, fl): return withctx(lambda h, d, n: isz(lk(h, 'decl', h.S(cf(h, n, f)), h.E(fl))))
chk('check_file_context_users', ['P13'], undecl('user', 'DECL_USER'), 'E', 'E_ID_FC_USER', FC)
chk('check_file_context_roles', ['P13'], undecl('role', 'DECL_ROLE'), 'E', 'E_ID_FC_ROLE', FC)
chk('check_file_context_types_exist', ['P13'], undecl('type', 'DECL_TYPE'), 'E', 'E_ID_FC_TYPE', FC)

# ---- W-004
B8 = z3.BitVecSort(8)
def inn(x, cs): return Or([Eq(x, ord(c)) for c in cs])
def badch(h, c, p, n):
    return Or(And(Eq(c, ord('.')), Ne(p, 92), Not(inn(n, '*+?'))), And(inn(c, '+*'), Not(inn(p, '\\.])'))))
def s1(h, s): return h.suf(s, 1)
# the rest of the path is suspicious, given the character before it; outside / inside a bracket expression
def bodyscan(h, s, p):
    c = h.ch(s)
    return If(Eq(c, 0), False, lambda: If(And(Eq(c, ord('[')), Ne(p, 92)), lambda: Skip(h, s, p), lambda: Or(badch(h, c, p, h.ch(s, 1)), Scan(h, s1(h, s), c))))
def bodyskip(h, s, p):
    c = h.ch(s)
    return If(Eq(c, 0), False, lambda: If(And(Eq(c, ord(']')), Ne(p, 92)), lambda: Scan(h, s, p), lambda: Skip(h, s1(h, s), c)))
Scan = RecFn('Scan', [Str, B8], BOOL, bodyscan)
Skip = RecFn('Skip', [Str, B8], BOOL, bodyskip)
def z8(h): return 0 if h.concrete else bv(0, 8)
def rest(h, A, L, p):
    """the string the loop has still to look at"""
    n = L.combo[0]; w = L.c.walkinfo.get(L.hv[n].get_id())
    if not (z3.is_bv(p) and p.size() == 64): return None
    if w is not None: return h.S(p)
    if L.entry[n].eq(bv(0)) or not L.isptr(n): return h.suf(h.S(h.f(ND(h, A[1]), 'fc_entry', 'path')), p)
    return None
def scaninv(F):
    def f(h, A, L, p, q):
        if not (z3.is_bv(q) and q.size() == 8): return None
        s = rest(h, A, L, p)
        if s is None: return None
        return F(h, s, q) == Scan(h, h.S(h.f(ND(h, A[1]), 'fc_entry', 'path')), bv(0, 8))
    return f
def curinv(h, A, L, p, q):
    if not (z3.is_bv(q) and q.size() == 8): return None
    s = rest(h, A, L, p)
    return None if s is None else q == h.ch(s)
chk('check_file_context_regex', ['P12'], withctx(lambda h, d, n: Scan(h, h.S(h.f(ND(h, n), 'fc_entry', 'path')), z8(h))), 'W', 'W_ID_FC_REGEX', FC,
    inv=[('current character', curinv), ('rest to scan', scaninv(Scan)), ('rest to skip', scaninv(Skip))])
