from specs.common import *

def chk(name, props, spec, sev, ids, nodefl=(), pre=None, internal=None, genopts={}, **kw):
    """a check function: reports (sev,id) exactly when spec(h,data,node) holds"""
    def pres(h, d, n):
        out = [('data non-null', And(nz(d), h.valid(d, 'check_data'))), ('node non-null', And(nz(n), h.valid(n, 'policy_node')))]
        if nodefl: out.append(('node has a flavour the check is registered for', isfl(h, n, *nodefl)))
        if pre: out += pre(h, d, n)
        return out
    def posts(h0, h1, r, d, n):
        s = spec(h0, d, n)
        out = [('reports an issue exactly when the property is violated by the policy', Iff(nz(r), s)),
               ('the report carries the severity and id of the check', Implies(nz(r), Or(is_result(h1, r, sev, h0.E(ids)), And(internal(h0, d, n), is_result(h1, r, 'F', h0.E('F_ID_INTERNAL'))) if internal else False)))]
        return out
    kw.setdefault('ptr_types', ('string_list', 'policy_node'))
    import gen
    kw.setdefault('gen', gen.gen_check(nodefl, **genopts))
    add(Contract(name, pre=pres, post=posts, **kw), *props)

def dflav(h, d, name): return Eq(h.f(d, 'check_data', 'flavor'), h.E(name))
def av(h, n, f): return h.f(ND(h, n), 'av_rule_data', f)
def decl(h, n, f): return h.f(ND(h, n), 'declaration_data', f)
def icname(h, n): return h.S(h.f(ND(h, n), 'if_call_data', 'name'))
def icargs(h, n): return h.f(ND(h, n), 'if_call_data', 'args')

# ---- C-005: permissions ordered, no repeats
def permpair(h, p, q):
    return And(nz(p), lambda_and(lambda: And(Ne(SV(h, p), h.lit(b'~')), Ne(SV(h, q), h.lit(b'-')), Not(h.slt(SV(h, p), SV(h, q)))), nz(p)))
def lambda_and(f, guard):
    if guard is False: return False
    return f()
BadPerm = RecFn('BadPerm', [BV64, BV64], BOOL, lambda h, p, q: If(isz(q), False, lambda: Or(permpair(h, p, q), BadPerm(h, q, NX(h, q)))))
def c005(h, d, n):
    l = If(isfl(h, n, 'NODE_DECL'), lambda: decl(h, n, 'attrs'), lambda: av(h, n, 'perms'))
    return And(Or(Not(isfl(h, n, 'NODE_DECL')), lambda_or(lambda: Eq(decl(h, n, 'flavor'), h.E('DECL_CLASS')), isfl(h, n, 'NODE_DECL'))), BadPerm(h, 0, l))
def lambda_or(f, guard):
    if guard is False: return True
    return f()
chk('check_unordered_perms', ['P15'], c005, 'C', 'C_ID_UNORDERED_PERM', ('NODE_AV_RULE', 'NODE_XAV_RULE', 'NODE_DECL'),
    tails=[lambda h, p, q: BadPerm(h, p, q), lambda h, p: BadPerm(h, p, NX(h, p)), lambda h, q: BadPerm(h, 0, q)])

# ---- C-007: self
def c007(h, d, n):
    s, t = av(h, n, 'sources'), av(h, n, 'targets')
    S = SV(h, s)
    return And(isz(NX(h, s)), isz(NX(h, t)), Ne(SV(h, t), h.lit(b'self')), Eq(S, SV(h, t)),
               If(Eq(h.ch(S), ord('$')), lambda: h.endsw(S, b'_t'), lambda: nz(lk(h, 'decl', S, h.E('DECL_TYPE')))))
chk('check_no_self', ['P15'], c007, 'C', 'C_ID_SELF', ('NODE_AV_RULE', 'NODE_XAV_RULE'))

# ---- S-001
ReqDecl = RecFn('ReqDecl', [BV64], BOOL, lambda h, n: If(isz(n), False, lambda: Or(
    And(isfl(h, n, 'NODE_DECL'), If(isfl(h, n, 'NODE_DECL'), lambda: And(Ne(decl(h, n, 'flavor'), h.E('DECL_CLASS')), Ne(decl(h, n, 'flavor'), h.E('DECL_PERM'))), False)), ReqDecl(h, nxt(h, n)))))
chk('check_require_block', ['P14'], lambda h, d, n: And(dflav(h, d, 'FILE_TE_FILE'), ReqDecl(h, child(h, n))), 'S', 'S_ID_REQUIRE',
    ('NODE_REQUIRE', 'NODE_GEN_REQ'), tails=[lambda h, p: ReqDecl(h, p)])
chk('check_useless_semicolon', ['P16'], lambda h, d, n: True, 'S', 'S_ID_SEMICOLON', ('NODE_SEMICOLON',))
chk('check_bare_module_statement', ['P16'], lambda h, d, n: Eq(h.f(ND(h, n), 'header_data', 'flavor'), h.E('HEADER_BARE')), 'S', 'S_ID_BARE_MODULE', ('NODE_HEADER',))

# ---- S-009
AllNetlink = all_rec('AllNetlink', lambda h, s: h.startsw(s, b'netlink_'))
AllSocket = all_rec('AllSocket', lambda h, s: h.endsw(s, b'_socket'))
def sufperms(h, p, x):
    """p ends with x followed by six characters"""
    if conc(p): return len(p) >= len(x) + 6 and p[len(p) - len(x) - 6:len(p) - 6] == x
    a, b = h.slen(p), h.slen(x)
    return And(ULE(b + 6, a), Eq(h.pre(h.suf(p, a - (b + 6)), b), x))
def clsmatch(h, p, x):
    return Or(sufperms(h, p, x), And(Eq(x, h.lit(b'chr_file')), sufperms(h, p, h.lit(b'term'))), And(Eq(x, h.lit(b'process')), sufperms(h, p, h.lit(b'signal'))))
AllSuf = RecFn('AllSuf', [Str, BV64], BOOL, lambda h, p, l: If(isz(l), True, lambda: And(clsmatch(h, p, SV(h, l)), AllSuf(h, p, NX(h, l)))))
def badmacro(h, p, cl):
    sock = AllSocket(h, cl); net = AllNetlink(h, cl)
    return And(h.endsw(p, b'_perms'),
        If(AllSuf(h, p, cl),
           lambda: And(InSL(h, h.lit(b'file'), cl), Or([sufperms(h, p, h.lit(x)) for x in (b'lnk_file', b'chr_file', b'blk_file', b'sock_file', b'fifo_file')])),
           lambda: And(Not(And(net, h.endsw(p, b'_socket_perms'))),
                       Not(And(sock, Not(net), h.endsw(p, b'_socket_perms'), Not(h.endsw(p, b'netlink_socket_perms')))))))
BadMacro = RecFn('BadMacro', [BV64, BV64], BOOL, lambda h, l, cl: If(isz(l), False, lambda: Or(badmacro(h, SV(h, l), cl), BadMacro(h, NX(h, l), cl))))
def s009(h, d, n):
    cl = av(h, n, 'object_classes')
    return And(Not(h.endsw(SV(h, cl), b'_class_set')), BadMacro(h, av(h, n, 'perms'), cl))
chk('check_perm_macro_class_mismatch', ['P15'], s009, 'S', 'S_ID_PERM_SUFFIX', ('NODE_AV_RULE',),
    tails=[lambda h, p: BadMacro(h, p, av(h, h.ctx.root_args[1], 'object_classes')), lambda h, p: AllNetlink(h, p), lambda h, p: AllSocket(h, p),
           lambda h, p: InSL(h, h.lit(b'file'), p)],
    stails=[lambda h, x, p: AllSuf(h, h.S(x), p), lambda h, x, p: AllSuf(h, SV(h, x), p)])

# ---- S-010
def s010(h, d, n):
    cl = av(h, n, 'object_classes')
    return And(Eq(av(h, n, 'flavor'), h.E('AV_RULE_ALLOW')), isz(NX(h, cl)), Not(h.endsw(SV(h, cl), b'_class_set')), permsug(h, SV(h, cl), av(h, n, 'perms')))
def permsug(h, cls, perms):
    return h.permsug(cls, perms)
Heap.permsug = lambda h, cls, perms: h.uf('permsug', [Str, BV64, BOOL], cls, perms)
add(Contract('permmacro_check', pre=lambda h, s, l: [('class is a string', And(nz(s), h.valid(s, 'char')))],
    post=lambda h0, h1, r, s, l: [('suggestion iff', Iff(nz(r), permsug(h0, h0.S(s), l))), ('string', Or(isz(r), h1.valid(r, 'char')))],
    trusted=True, why='existence of a suggestion is an abstract predicate of class and permission list here; property P17'))
chk('check_perm_macro_available', ['P17'], s010, 'S', 'S_ID_PERMMACRO', ('NODE_AV_RULE',))

# ---- W-005
def w005(h, d, n):
    m = lk(h, 'ifs', icname(h, n))
    def rest():
        M = h.S(m); st = lk(h, 'mods', M)
        return And(Ne(M, h.S(h.f(d, 'check_data', 'mod_name'))), nz(st), If(nz(st), lambda: Ne(h.S(st), h.lit(b'base')), False), Not(InOpt(h, n)))
    return If(isz(m), False, rest)
chk('check_module_if_call_in_optional', ['P16'], w005, 'W', 'W_ID_IF_CALL_OPTIONAL', ('NODE_IF_CALL',), tails=[lambda h, p: InOptS(h, p), lambda h, p: InOpt(h, p)])
chk('check_empty_if_call_arg', ['P16'], lambda h, d, n: isz(icargs(h, n)), 'W', 'W_ID_EMPTY_IF_CALL_ARG', ('NODE_IF_CALL',))
def spacebad(h, p, q):
    sp = nz(h.f(q, 'string_list', 'has_incorrect_space'))
    def g():
        P = SV(h, p)
        return And(sp, Or([Ne(h.ch(SV(h, q)), ord('-'))] + [nz(lk(h, 'decl', P, h.E(x))) for x in ('DECL_TYPE', 'DECL_ATTRIBUTE', 'DECL_ROLE', 'DECL_ATTRIBUTE_ROLE', 'DECL_USER')]))
    return If(isz(p), False, g)
BadSpace = RecFn('BadSpace', [BV64, BV64], BOOL, lambda h, p, q: If(isz(q), False, lambda: Or(spacebad(h, p, q), BadSpace(h, q, NX(h, q)))))
chk('check_space_if_call_arg', ['P16'], lambda h, d, n: BadSpace(h, 0, icargs(h, n)), 'W', 'W_ID_SPACE_IF_CALL_ARG', ('NODE_IF_CALL',),
    tails=[lambda h, p, q: BadSpace(h, p, q), lambda h, p: BadSpace(h, p, NX(h, p)), lambda h, q: BadSpace(h, 0, q)])

chk('check_risky_allow_perm', ['P15'], lambda h, d, n: And(Eq(av(h, n, 'flavor'), h.E('AV_RULE_ALLOW')), Or(InSL(h, h.lit(b'*'), av(h, n, 'perms')), InSL(h, h.lit(b'~'), av(h, n, 'perms')))), 'W', 'W_ID_RISKY_ALLOW_PERM', ('NODE_AV_RULE',),
    tails=[lambda h, p: InSL(h, h.lit(b'*'), p), lambda h, p: InSL(h, h.lit(b'~'), p)])
def w009(h, d, n):
    f = h.S(h.f(d, 'check_data', 'filename')); m = h.S(h.f(ND(h, n), 'header_data', 'module_name'))
    return Ne(m, If(h.haschr(f, b'.'), lambda: h.pre(f, h.ridxchr(f, b'.')), f))
chk('check_module_file_name_mismatch', ['P16'], w009, 'W', 'W_ID_MOD_NAME_FILE', ('NODE_HEADER',))

MACROS = None
ABBR = [(b'%s' % a, b'%s' % b) for a, b in ()]
import specs.tables as TB
def modlike(h, x):
    return Or([nz(lk(h, 'mods', x))] + [And(Eq(x, h.lit(a)), nz(lk(h, 'mods', h.lit(b)))) for a, b in TB.ABBR])
def _pfx(h, S, k):
    r = h.suf(S, k)
    def g():
        j = k + h.idxchr(r, b'_')
        if z3.is_expr(j): j = z3.simplify(j)
        return Or(modlike(h, h.pre(S, j)), Pfx(h, S, j + 1))
    return If(h.haschr(r, b'_'), g, False)
Pfx = RecFn('Pfx', [Str, BV64], BOOL, _pfx)
def w010(h, d, n):
    S = icname(h, n)
    return And(Not(Or([Eq(S, h.lit(x)) for x in TB.MACROS])), Pfx(h, S, 0), isz(lk(h, 'ifs', S)))
def push(p, f):
    if z3.is_expr(p) and z3.is_app_of(p, z3.Z3_OP_ITE): return Ite(p.arg(0), push(p.arg(1), f), push(p.arg(2), f))
    return f(p)
def ifname(h, A): return h.f(ND(h, A[1]), 'if_call_data', 'name')
def off(p, nm): return z3.simplify(p - nm)
def pfxinv(h, A, L, p):
    return push(p, lambda p: Or(isz(p), And(h.valid(p, 'char'), Eq(h.ch(h.S(p)), ord('_')))))
def pfxinv2(h, A, L, p):
    nm = ifname(h, A); S = h.S(nm)
    return Iff(push(p, lambda p: If(isz(p), False, lambda: Or(modlike(h, h.pre(S, off(p, nm))), Pfx(h, S, off(p, nm) + 1)))), Pfx(h, S, 0))
chk('check_unknown_interface_call', ['P16'], w010, 'W', 'W_ID_UNKNOWN_CALL', ('NODE_IF_CALL',),
    inv=[('pointer into the name', pfxinv), ('remaining prefixes', pfxinv2)])
chk('check_declaration_interface_nameclash', ['P14'], lambda h, d, n: nz(lk(h, 'ifs', h.S(decl(h, n, 'name')))), 'E', 'E_ID_DECL_IF_CLASH', ('NODE_DECL',))

UnkPerm = any_rec('UnkPerm', lambda h, s: And(Ne(s, h.lit(b'*')), Ne(s, h.lit(b'~')), Not(And(h.startsw(s, b'all_'), h.endsw(s, b'_perms'))),
                  isz(lk(h, 'decl', s, h.E('DECL_PERM'))), isz(lk(h, 'permmacros', s))))
chk('check_unknown_permission', ['P15'], lambda h, d, n: UnkPerm(h, av(h, n, 'perms')), 'E', 'E_ID_UNKNOWN_PERM', ('NODE_AV_RULE',), tails=[lambda h, p: UnkPerm(h, p)])
def isdig(h, c): return And(ULE(48, c), ULE(c, 57)) if not conc(c) else 48 <= c <= 57
UnkClass = any_rec('UnkClass', lambda h, s: And(Not(And(Eq(h.ch(s), ord('$')), isdig(h, h.ch(s, 1)))), Not(h.endsw(s, b'_class_set')), isz(lk(h, 'decl', s, h.E('DECL_CLASS')))))
def e008(h, d, n):
    l = If(isfl(h, n, 'NODE_AV_RULE'), lambda: av(h, n, 'object_classes'), lambda: If(isfl(h, n, 'NODE_RT_RULE'), lambda: h.f(ND(h, n), 'role_transition_data', 'object_classes'),
           lambda: h.f(ND(h, n), 'type_transition_data', 'object_classes')))
    return UnkClass(h, l)
chk('check_unknown_class', ['P15'], e008, 'E', 'E_ID_UNKNOWN_CLASS', ('NODE_AV_RULE', 'NODE_RT_RULE', 'NODE_TT_RULE'), tails=[lambda h, p: UnkClass(h, p)])
AllTrivial = RecFn('AllTrivial', [BV64], BOOL, lambda h, n: If(isz(n), True, lambda: And(isfl(h, n, 'NODE_START_BLOCK', 'NODE_COMMENT', 'NODE_SEMICOLON'), AllTrivial(h, nxt(h, n)))))
chk('check_empty_block', ['P14'], lambda h, d, n: AllTrivial(h, child(h, n)), 'E', 'E_ID_EMPTY_BLOCK', (), tails=[lambda h, p: AllTrivial(h, p)])

# ---- E-010
IfArg = RecFn('IfArg', [BV64], BV64, lambda h, n: If(isz(n), 0, lambda: If(isz(parent(h, n)), 0, lambda:
    If(And(isfl(h, n, 'NODE_M4_ARG'), isfl(h, parent(h, n), 'NODE_IFELSE')), n, lambda: IfArg(h, parent(h, n))))))
PrevCnt = RecFn('PrevCnt', [BV64], B32, lambda h, n: If(isz(n), lambda: bvz(h, 0), lambda: 1 + PrevCnt(h, prv(h, n))), post=lambda h, v, n: [v >= 0])
def bvz(h, v): return v if h.concrete else bv(v, 32)
def e010(h, d, n):
    s = h.S(ND(h, n))
    a = IfArg(h, n)
    def pos3():
        p = PrevCnt(h, prv(h, a))
        m = p % 3 if h.concrete else z3.URem(p, bv(3, 32))
        return And(nz(nxt(h, a)), Or(Eq(m, 1), Eq(m, 2)))
    return And(Not(InSL(h, s, h.f(h.f(d, 'check_data', 'config_check_data'), 'config_check_data', 'custom_te_simple_macros'))), Not(If(isz(a), False, pos3)))
chk('check_stray_word', ['P16'], e010, 'E', 'E_ID_STRAY_WORD', ('NODE_M4_SIMPLE_MACRO',),
    tails=[lambda h, p: IfArg(h, p), lambda h, p: PrevCnt(h, p), lambda h, p: PrevCnt(h, prv(h, p))])
