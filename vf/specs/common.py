"""Well-formedness facts about the data structures (what the grammar and the constructors
guarantee), vocabulary of specification functions, and contracts of shared helpers."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from contract import *

B32 = z3.BitVecSort(32)
BOOL = z3.BoolSort()
INTS = z3.IntSort()

NONNULL = {
 'string_list': ['string'],
 'av_rule_data': ['sources', 'targets', 'object_classes', 'perms'],
 'xav_rule_data': ['sources', 'targets', 'object_classes', 'perms'],
 'type_transition_data': ['sources', 'targets', 'object_classes', 'default_type'],
 'role_transition_data': ['sources', 'targets', 'default_role'],
 'if_call_data': ['name'],
 'declaration_data': ['name'],
 'role_allow_data': ['from', 'to'],
 'role_types_data': ['role', 'types'],
 'attribute_data': ['type', 'attrs'],
 'header_data': ['module_name'],
 'check_data': ['mod_name', 'filename', 'config_check_data'],
 'sel_context': ['user', 'role', 'type'],
 'fc_entry': ['path'],
 'check_node': ['check_id', 'check_function'],
 'hash_elem': ['val', 'key'], 'sl_hash_elem': ['val', 'key'],
 'template_hash_elem': ['name'],
 'file_list_node': ['file'], 'policy_file_node': ['file'], 'policy_file': ['filename', 'ast'],
 'decl_list': ['decl'], 'if_call_list': ['call'],
}
# a chain field always leads to a strictly smaller node (acyclic)
ACYCLIC = {('string_list', 'next'), ('check_node', 'next'), ('policy_file_node', 'next'), ('decl_list', 'next'), ('if_call_list', 'next'), ('file_list_node', 'next')}
DATA = [  # node flavours -> struct the data pointer refers to
 (('NODE_AV_RULE',), 'av_rule_data'), (('NODE_XAV_RULE',), 'xav_rule_data'),
 (('NODE_TT_RULE',), 'type_transition_data'), (('NODE_RT_RULE',), 'role_transition_data'),
 (('NODE_HEADER',), 'header_data'), (('NODE_ROLE_ALLOW',), 'role_allow_data'), (('NODE_ROLE_TYPES',), 'role_types_data'),
 (('NODE_DECL',), 'declaration_data'), (('NODE_IF_CALL',), 'if_call_data'), (('NODE_FC_ENTRY',), 'fc_entry'),
 (('NODE_TYPE_ATTRIBUTE', 'NODE_ROLE_ATTRIBUTE'), 'attribute_data'), (('NODE_GEN_REQ',), 'gen_require_data'),
 (('NODE_ALIAS', 'NODE_TYPE_ALIAS', 'NODE_PERMISSIVE', 'NODE_M4_SIMPLE_MACRO', 'NODE_INTERFACE_DEF', 'NODE_TEMP_DEF'), 'char'),
]

def rank(c, p): return c.uf('rank', [BV64, INTS], p)
def depth(c, p): return c.uf('depth', [BV64, INTS], p)
def pos(c, p): return c.uf('pos', [BV64, INTS], p)
def pord(c, p): return c.uf('preord', [BV64, INTS], p)    # number of elements after p in the preorder of its (finite) tree

def wf(c, h, p, st, fld, v):
    out = []
    d = c.fielddi.get((st, fld)) if hasattr(c, 'fielddi') else None
    for n, di, o in c.prog.structs.get(st, []):
        if n == fld and di == ('base', '_Bool') and z3.is_bv(v): out.append(z3.ULE(v, bv(1, v.size())))
        if n == fld and (di[0] == 'ptr' or di[0] == 'array' and di[1][0] == 'ptr'):
            e = (di if di[0] == 'ptr' else di[1])[1]
            if e[0] == 'struc' and e[1]: out.append(Or(v == 0, c.valid({}, v, e[1])))
            elif e == ('base', 'char'): out.append(Or(v == 0, c.valid({}, v, 'char')))
    if fld in NONNULL.get(st, ()): out.append(v != 0)
    if (st, fld) in ACYCLIC:
        out.append(Or(v == 0, And(rank(c, v) < rank(c, p)))); out.append(rank(c, p) >= 0)
    if st == 'policy_node':
        E = c.prog.enums
        F = lambda q, f: c.region({}, ('policy_node', f))[q]
        if fld == 'flavor': out.append(z3.ULE(v, bv(E['NODE_ERROR'], 32)))
        if fld in ('next', 'first_child'):
            out += [Or(v == 0, rank(c, v) < rank(c, p)), rank(c, p) >= 0, Or(v == 0, rank(c, v) >= 0), Or(v == 0, pord(c, v) < pord(c, p)), pord(c, p) >= 0]
        if fld == 'next': out += [Or(v == 0, F(v, 'parent') == F(p, 'parent')), Or(v == 0, F(v, 'prev') == p), Or(v == 0, pos(c, v) == pos(c, p) + 1)]
        if fld == 'prev': out += [Or(v == 0, F(v, 'next') == p), Or(v == 0, F(v, 'parent') == F(p, 'parent')), Or(v == 0, And(pos(c, v) < pos(c, p))), pos(c, p) >= 0, depth(c, p) >= 0]
        if fld == 'first_child': out += [Or(v == 0, And(F(v, 'parent') == p, F(v, 'prev') == 0)),
                 Or(v != 0, And(F(p, 'flavor') != E['NODE_REQUIRE'], F(p, 'flavor') != E['NODE_GEN_REQ']))]
        if fld == 'parent': out += [Or(v == 0, depth(c, v) < depth(c, p)), depth(c, p) >= 0, Or(v == 0, F(v, 'first_child') != 0)]
        if fld == '#5' or fld == 'data':
            fl = F(p, 'flavor')
            for names, ty in DATA:
                out.append(Implies(Or([fl == E[x] for x in names]), And(v != 0, c.valid({}, v, ty))))
    return out
GLOBALS['wf'] = wf

# ------------------------------------------------------------------ dual-mode arithmetic
def conc(*xs): return not any(z3.is_expr(x) for x in xs)
def ULE(a, b): return a <= b if conc(a, b) else z3.ULE(a if z3.is_expr(a) else bv(a, b.size()), b if z3.is_expr(b) else bv(b, a.size()))
def ULT(a, b): return a < b if conc(a, b) else z3.ULT(a if z3.is_expr(a) else bv(a, b.size()), b if z3.is_expr(b) else bv(b, a.size()))

# ------------------------------------------------------------------ shorthand
def NX(h, l): return h.f(l, 'string_list', 'next')
def SV(h, l): return h.S(h.f(l, 'string_list', 'string'))
def ND(h, n): return h.f(n, 'policy_node', 'data')
def FL(h, n): return h.f(n, 'policy_node', 'flavor')
def isfl(h, n, *names): return Or([Eq(FL(h, n), h.E(x)) for x in names])
def parent(h, n): return h.f(n, 'policy_node', 'parent')
def nxt(h, n): return h.f(n, 'policy_node', 'next')
def prv(h, n): return h.f(n, 'policy_node', 'prev')
def child(h, n): return h.f(n, 'policy_node', 'first_child')
def nz(x): return Ne(x, 0)
def isz(x): return Eq(x, 0)
def L(b): return b

def lk(h, m, *a):
    """abstract content of a symbol table: name (and flavour) -> result of the look-up"""
    return h.lk(m, *a)

# membership of a string in a list
InSL = RecFn('InSL', [Str, BV64], BOOL, lambda h, s, l: If(isz(l), False, lambda: Or(Eq(SV(h, l), s), InSL(h, s, NX(h, l)))))
def any_rec(name, pred):
    """exists element of the string list satisfying pred(h, string)"""
    f = RecFn(name, [BV64], BOOL, lambda h, l: If(isz(l), False, lambda: Or(pred(h, SV(h, l)), f(h, NX(h, l)))))
    return f
def all_rec(name, pred):
    f = RecFn(name, [BV64], BOOL, lambda h, l: If(isz(l), True, lambda: And(pred(h, SV(h, l)), f(h, NX(h, l)))))
    return f
def anc_rec(name, *flavors):
    """the node or some ancestor has one of these flavours"""
    f = RecFn(name, [BV64], BOOL, lambda h, n: If(isz(n), False, lambda: Or(isfl(h, n, *flavors), f(h, parent(h, n)))))
    return f
InReqS = anc_rec('InReq', 'NODE_GEN_REQ', 'NODE_REQUIRE')
InOptS = anc_rec('InOpt', 'NODE_OPTIONAL_POLICY')
# strictly inside such a block
def InReq(h, n): return InReqS(h, parent(h, n))
def InOpt(h, n): return InOptS(h, parent(h, n))
# the nearest enclosing interface/template definition of a node (0 if none), strict and reflexive
Encl = RecFn('Encl', [BV64], BV64, lambda h, n: If(isz(n), 0, lambda: If(isfl(h, n, 'NODE_INTERFACE_DEF', 'NODE_TEMP_DEF'), n, lambda: Encl(h, parent(h, n)))))
# in preorder: node following the whole subtree of n
UpS = RecFn('UpS', [BV64], BV64, lambda h, n: If(isz(n), 0, lambda: If(nz(nxt(h, n)), nxt(h, n), lambda: UpS(h, parent(h, n)))),
   post=lambda h, v, n: [Implies(h.ctx.valid({}, n, 'policy_node'), Or(v == 0, And(h.ctx.valid({}, v, 'policy_node'), pord(h.ctx, v) < pord(h.ctx, n), pord(h.ctx, v) >= 0)))])
def Next(h, n): return If(nz(child(h, n)), child(h, n), lambda: UpS(h, n))

# ------------------------------------------------------------------ contracts
C = {}
BOUNDED = {}    # property id -> bounded stand-ins (cases run on the compiled code, not proofs)
def bounded(name, label, bound, cases, case, *props):
    k = Contract(name, label=label, case=case); k.bounded, k.cases = bound, cases
    for p in props: BOUNDED.setdefault(p, []).append(k)
    return k
PROPS = {}      # property id -> list of contracts to verify
def add(k, *props):
    key = k.name + (('[' + k.label + ']') if k.label else '')
    if not k.label: C[k.name] = k
    for p in props: PROPS.setdefault(p, []).append(k)
    return k

SEV = {'C': 67, 'S': 83, 'W': 87, 'E': 69, 'F': 70}
def is_result(h1, ret, sev, idv):
    return And(h1.valid(ret, 'check_result'), Eq(h1.f(ret, 'check_result', 'severity'), SEV[sev]), Eq(h1.f(ret, 'check_result', 'check_id'), idv))

def mk_effects(c, mem, pc, sev, idv, fmt, *rest):
    p = c.malloc(mem, None, pc, 'check_result')
    for fld, v in (('severity', sev), ('check_id', idv)):
        r = ('check_result', fld)
        c.setregion(mem, r, z3.Store(c.region(mem, r), p, v))
    m = c.malloc(mem, None, pc, 'char')
    c.setregion(mem, ('check_result', 'message'), z3.Store(c.region(mem, ('check_result', 'message')), p, m))
    return p
def mk_pre(h, sev, idv, fmt, *rest):
    c = h.ctx; out = []
    if z3.is_bv_value(fmt) and fmt.as_long() in c.litaddr:
        import re
        convs = re.findall(rb'%[-0-9.*l]*([a-zA-Z%])', c.litaddr[fmt.as_long()])
        convs = [x for x in convs if x != b'%']
        for cv, a in zip(convs, rest):
            if cv == b's': out.append(('string argument of the report message is valid', c.strvalid(h.mem, a)))
    return out
add(Contract('make_check_result', pre=mk_pre, effects=mk_effects, external=True, trusted=True,
    why='variadic: allocation and vasprintf are assumed to succeed; the result carries the given severity and id'))
add(Contract('alloc_internal_error', pre=lambda h, s: [('message non-null', nz(s))],
    post=lambda h0, h1, r, s: [('an internal-error result', And(nz(r), is_result(h1, r, 'F', h0.E('F_ID_INTERNAL'))))],
    effects=lambda c, mem, pc, s: mk_effects(c, mem, pc, bv(70, 8), bv(c.prog.enums['F_ID_INTERNAL'], 32), s)))
add(Contract('free_check_result', modifies=[], ghost_pure=False, trusted=True, why='only releases memory'))
add(Contract('free_string_list', modifies=[], trusted=True, why='only releases memory'))
for n in ('color_note', 'color_reset', 'color_ok', 'color_error', 'color_warning', 'color_severity'):
    add(Contract(n, post=lambda h0, h1, r, *a: [('a valid string', And(nz(r), h1.valid(r, 'char')))], trusted=True, why='terminal escape sequences only'))
add(Contract('print_if_verbose', external=True, trusted=True, why='diagnostic output only'))

# symbol table look-ups: abstract tables
def lkc(name, m, arity):
    def value(h, *a):
        return lk(h, m, *([h.S(a[0])] + list(a[1:])))
    add(Contract(name, nonnull=(0,), value=value, pre=lambda h, s, *r: [('name is a string', h.valid(s, 'char'))], trusted=True,
                 why='symbol-table abstraction; its update laws are property P08'))
lkc('look_up_in_decl_map', 'decl', 2)
lkc('look_up_in_ifs_map', 'ifs', 1)
lkc('look_up_in_mods_map', 'mods', 1)
lkc('look_up_in_mod_layers_map', 'mod_layers', 1)
lkc('look_up_in_template_map', 'template', 1)
lkc('look_up_in_permmacros_map', 'permmacros', 1)
LKTY = {'decl': 'char', 'ifs': 'char', 'mods': 'char', 'mod_layers': 'char', 'template': 'template_hash_elem', 'permmacros': 'string_list'}
def heap_lk(h, m, s, *a):
    c = h.ctx
    so = [Str] + [B32] * len(a) + [BV64]
    v = c.uf('map_' + m, so, c.coerce(s, Str) if not isinstance(s, bytes) else c.lit(s), *a)
    rl = c.readlog; c.readlog = None
    c.axiom(Or(v == 0, c.valid({}, v, LKTY[m]))); c.axiom(c.tag0(bv(0)) == 0)
    c.readlog = rl
    return v
Heap.lk = heap_lk

add(Contract('str_in_sl', pre=lambda h, s, l: [('str non-null', nz(s))], value=lambda h, s, l: InSL(h, h.S(s), l),
    tails=[lambda h, p: InSL(h, h.S(h.ctx.root_args[0]), p)]), 'P07')
def ew_pre(h, s, n, x, m):
    return [('string valid', And(nz(s), h.valid(s, 'char'))), ('length argument is the length of the string', Eq(n, h.slen(h.S(s)))),
            ('suffix valid', And(nz(x), h.valid(x, 'char'))), ('suffix length argument is its length', Eq(m, h.slen(h.S(x))))]
import gen
add(Contract('ends_with', gen=gen.gen_ends_with, pre=ew_pre, value=lambda h, s, n, x, m: h.endsw(h.S(s), h.S(x))), 'P15')
add(Contract('is_in_require', nonnull=(0,), value=lambda h, n: InReq(h, n), tails=[lambda h, p: InReqS(h, p), lambda h, p: InReq(h, p)]), 'P14')
add(Contract('get_name_if_in_template', nonnull=(0,), tails=[lambda h, p: TmplName(h, p)], value=lambda h, n: TmplName(h, n), final=lambda *a: tmpl_fin(*a)), 'P09')
TmplName = RecFn('TmplName', [BV64], BV64, lambda h, n: If(isz(parent(h, n)), 0, lambda: If(isfl(h, parent(h, n), 'NODE_TEMP_DEF'), lambda: ND(h, parent(h, n)), lambda: TmplName(h, parent(h, n)))),
   post=lambda h, v, n: [Implies(h.ctx.valid({}, n, 'policy_node'), Or(v == 0, h.ctx.valid({}, v, 'char')))])
def tmpl_fin(c, ex, m0, m1, pc, rv, args):
    h = Heap(c, m0); p = c.fresh('element', BV64); n = parent(h, p)
    c.oblige('enclosing template name: is a string (induction step)', 'lemma', TRUE, Implies(And(h.valid(p, 'policy_node'), nz(n), isfl(h, n, 'NODE_TEMP_DEF')), h.valid(ND(h, n), 'char')), None, then_assume=False)
add(Contract('dfs_next', nonnull=(0,), value=lambda h, n: Next(h, n), tails=[lambda h, p: UpS(h, p), lambda h, p: UpS(h, parent(h, p))]), 'P03')
FLSTR = {'DECL_TYPE': b'type', 'DECL_ATTRIBUTE': b'attribute', 'DECL_ATTRIBUTE_ROLE': b'attribute role', 'DECL_ROLE': b'role',
         'DECL_USER': b'user', 'DECL_CLASS': b'class', 'DECL_PERM': b'permission', 'DECL_BOOL': b'boolean'}
add(Contract('decl_flavor_to_string', post=lambda h0, h1, r, f: [('a valid string', And(nz(r), h1.valid(r, 'char')))] +
    [('%s is called %s' % (k, v.decode()), Implies(Eq(f, h0.E(k)), Eq(h1.S(r), h0.lit(v)))) for k, v in FLSTR.items()]), 'P14')
LEVEL = {}
PASSUME = {}
ASSUME = [
 'memory allocation never fails; allocated objects are disjoint from live ones',
 'input syntax trees are well formed (as built by the grammar actions): acyclic child/sibling/parent links, data pointer matching the node kind, the fields listed as non-null in vf/specs/common.py non-null, strings NUL-terminated and shorter than 2^40',
 'objects passed to a function are typed as declared and do not overlap; strings are treated as immutable values',
 'machine integers are modelled bit-exactly; locale is "C"',
]
