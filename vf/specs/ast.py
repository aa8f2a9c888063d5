"""P09/P22: construction of the syntax tree by the parser actions (tree.c, parse_functions.c), and what
the actions record in the symbol tables.  Table updates are recorded in a ghost trace; the functions
doing them are verified separately (P08)."""
from specs.run import *
import cx

def cell(h, cc): return h.region(('cell', 64))[cc]
def PF(h, n, f): return h.f(n, 'policy_node', f)
Open = RecFn('OpenSpine', [BV64], BOOL, lambda h, n: If(isz(n), True, lambda: And(isz(nxt(h, n)), Open(h, parent(h, n)))))
PTRF = ('parent', 'next', 'prev', 'first_child')
def node_new(h0, h1, n): return And(nz(n), Eq(h0.tag(n), 0), h1.valid(n, 'policy_node'))
def consistent(h, q, ok):
    """the links of element q agree with those of the elements it refers to"""
    nx, pv, pa, fc = [PF(h, q, f) for f in ('next', 'prev', 'parent', 'first_child')]
    return [('next', Implies(nz(nx), And(ok(nx), Eq(PF(h, nx, 'prev'), q), Eq(PF(h, nx, 'parent'), pa)))),
            ('prev', Implies(nz(pv), And(ok(pv), Eq(PF(h, pv, 'next'), q), Eq(PF(h, pv, 'parent'), pa)))),
            ('first child', Implies(nz(fc), And(ok(fc), Eq(PF(h, fc, 'parent'), q), isz(PF(h, fc, 'prev'))))),
            ('parent', Implies(nz(pa), And(ok(pa), nz(PF(h, pa, 'first_child')), Implies(isz(pv), Eq(PF(h, pa, 'first_child'), q)))))]
def link_lemma(con, c, m0, m1, pc, cells):
    """after the call every element, old or new, is linked consistently: for an arbitrary element q"""
    h0, h1 = Heap(c, m0), Heap(c, m1)
    q = c.fresh('any_element', BV64)
    for f in PTRF:
        v = PF(h0, q, f)
        for g in PTRF: PF(h0, v, g)
    # an existing element is the first child of its parent exactly when it has no predecessor
    wfq = And([x[1] for x in consistent(h0, q, lambda v: h0.valid(v, 'policy_node'))])
    c.assume(TRUE, Implies(h0.valid(q, 'policy_node'), wfq))
    ok = lambda v: h1.valid(v, 'policy_node')
    isnode = h1.valid(q, 'policy_node')
    for lab, f in consistent(h1, q, ok):
        c.oblige('%s: afterwards the %s link of every element agrees with the element it leads to' % (con, lab), 'post', And(pc, isnode), f, None, then_assume=False)
def spine_lemma(con, c, m0, m1, pc, c0, c1):
    """elements above the current one keep 'is the last of its siblings': induction over the depth"""
    h0, h1 = Heap(c, m0), Heap(c, m1)
    p = c.fresh('ancestor', BV64)
    up = parent(h0, p)
    keep = lambda x: Implies(And(h0.valid(x, 'policy_node'), nz(x), depth(c, x) < depth(c, c0)), Iff(Open(h1, x), Open(h0, x)))
    c.oblige('%s: elements above keep their place (induction step)' % con, 'lemma', And(pc, keep(up)), keep(p), None, then_assume=False)
    c.assume(pc, keep(parent(h0, c0)))
    c.oblige('%s: the new current element is the last one of every enclosing block' % con, 'post', pc, Open(h1, c1), None, then_assume=False)

# ---------------------------------------------------------------- tree.c
LastN = RecFn('LastN', [BV64], BV64, lambda h, n: If(isz(nxt(h, n)), n, lambda: LastN(h, nxt(h, n))),
   post=lambda h, v, n: [Implies(h.ctx.valid({}, n, 'policy_node'), last_fact(h, n, v))])
def last_fact(h, n, v): return And(nz(v), h.ctx.valid({}, v, 'policy_node'), isz(nxt(h, v)), Eq(parent(h, v), parent(h, n)))
def filled(h0, h1, n, fl, data, line, **ptrs):
    out = [('a new element', node_new(h0, h1, n)), ('of the given kind', Eq(PF(h1, n, 'flavor'), fl)), ('with the given line', Eq(PF(h1, n, 'lineno'), line)),
           ('without suppression text', isz(PF(h1, n, 'exceptions')))]
    if data is not None: out.append(('with the given content', Eq(ND(h1, n), data)))
    for k, v in ptrs.items(): out.append(('whose %s link is right' % k, Eq(PF(h1, n, k), v)))
    return out
def under(q, posts): return [(a, Implies(q, b)) for a, b in posts]
def child_post(h0, h1, r, p, fl, data, line):
    if h0.concrete: return []
    fc = PF(h0, p, 'first_child'); last = LastN(h0, fc)
    n = z3.If(fc == 0, PF(h1, p, 'first_child'), PF(h1, last, 'next'))
    return [('refuses a missing parent', Iff(Eq(r, h0.E('SELINT_BAD_ARG')), isz(p))), ('succeeds otherwise', Implies(nz(p), Eq(r, h0.E('SELINT_SUCCESS'))))] + \
        under(nz(p), filled(h0, h1, n, fl, data, line, parent=p, next=bv(0), first_child=bv(0), prev=z3.If(fc == 0, bv(0), last)))
def child_mod(h, p, fl, data, line):
    fc = PF(h, p, 'first_child'); z = bv(0)
    return [(('policy_node', 'first_child'), [z3.If(z3.And(p != 0, fc == 0), p, z)]), (('policy_node', 'next'), [z3.If(z3.And(p != 0, fc != 0), LastN(h, fc), z)])] + \
           [(('policy_node', f), 'fresh') for f in ('parent', 'prev', 'flavor', 'data', 'exceptions', 'lineno')]
def nodeok(h, p): return Or(isz(p), h.valid(p, 'policy_node'))
def fin(f):
    def g(c, ex, m0, m1, pc, rv, args): f(c, m0, m1, pc, rv, args)
    return g
def act_case(*a):
    from specs.astcase import ast_case
    return ast_case(*a)
def child_fin(c, m0, m1, pc, rv, a):
    h = Heap(c, m0); p, v = c.fresh('sibling', BV64), c.fresh('last', BV64); n = nxt(h, p)
    ok = h.valid(p, 'policy_node')
    c.oblige('last sibling: is a sibling without successor (base case)', 'lemma', TRUE, Implies(And(ok, isz(n)), last_fact(h, p, p)), None, then_assume=False)
    c.oblige('last sibling: is a sibling without successor (induction step)', 'lemma', TRUE, Implies(And(ok, nz(n), last_fact(h, n, v)), last_fact(h, p, v)), None, then_assume=False)
    link_lemma('insert_policy_node_child', c, m0, m1, And(pc, a[0] != 0), None)
add(Contract('insert_policy_node_child', label='tree', pre=lambda h, p, fl, data, line: [('parent null or valid', nodeok(h, p))], post=child_post, modifies=child_mod, final=fin(child_fin),
   tails=[lambda h, p: LastN(h, p)], ptr_types=('policy_node',), case=act_case), 'P09')
def next_post(h0, h1, r, p, fl, data, line):
    if h0.concrete: return []
    n = PF(h1, p, 'next')
    return [('refuses a missing predecessor', Iff(Eq(r, h0.E('SELINT_BAD_ARG')), isz(p))), ('succeeds otherwise', Implies(nz(p), Eq(r, h0.E('SELINT_SUCCESS'))))] + \
        under(nz(p), filled(h0, h1, n, fl, data, line, parent=parent(h0, p), next=bv(0), first_child=bv(0), prev=p))
def next_fin(c, m0, m1, pc, rv, a): link_lemma('insert_policy_node_next', c, m0, m1, And(pc, a[0] != 0), None)
add(Contract('insert_policy_node_next', label='tree', pre=lambda h, p, fl, data, line: [('predecessor null or valid', nodeok(h, p)), ('predecessor is the last element', Implies(nz(p), isz(nxt(h, p))))],
   post=next_post, modifies=lambda h, p, *a: [(('policy_node', 'next'), [p])], final=fin(next_fin), case=act_case), 'P09')

# ---------------------------------------------------------------- events
def ev(h, name, t, *a):
    so = [x.sort() for x in a]
    return h.uf('ev_' + name, [Trace] + so + [Trace], t, *a)
def record(name, conv, ret=None, pre=None):
    def eff(c, mem, pc, *a):
        h = Heap(c, mem)
        c.setregion(mem, ('ghost', 'trace'), ev(h, name, tr(h), *conv(h, *a)))
        return ret(c) if ret else None
    return eff
def strs(*idx): return lambda h, *a: [('string argument %d is valid' % i, And(nz(a[i]), h.valid(a[i], 'char'))) for i in idx]
def evc(fn, name, conv, pidx, ret=None):
    return Contract(fn, label='event', effects=record(name, conv, ret), pre=strs(*pidx), trusted=True, why='recorded as an event; the function itself is verified under property P08')
ok32 = lambda c: bv(c.prog.enums['SELINT_SUCCESS'], 32)
EVC = {k.name: k for k in (
  evc('insert_into_decl_map', 'declare', lambda h, n, m, f: (h.S(n), h.S(m), f), (0, 1)),
  evc('insert_decl_into_template_map', 'template_decl', lambda h, t, f, n: (h.S(t), f, h.S(n)), (0, 2)),
  evc('insert_call_into_template_map', 'template_call', lambda h, t, d: (h.S(t), d), (0,)),
  evc('insert_into_ifs_map', 'interface', lambda h, n, m: (h.S(n), h.S(m)), (0, 1)),
  evc('insert_template_into_template_map', 'template', lambda h, n: (h.S(n),), (0,)),
  evc('mark_transform_if', 'mark_transform', lambda h, n: (h.S(n),), (0,)),
  evc('mark_filetrans_if', 'mark_filetrans', lambda h, n: (h.S(n),), (0,)),
  evc('mark_role_if', 'mark_role', lambda h, n: (h.S(n),), (0,)),
)}
def ev_tmpl(c, mem, pc, n, args, par, mod):
    h = Heap(c, mem); c.setregion(mem, ('ghost', 'trace'), ev(h, 'expand', tr(h), h.S(n), args, par, mod))
    return c.uf('expand_result', [Trace, z3.BitVecSort(32)], tr(h))
EVC['add_template_declarations'] = Contract('add_template_declarations', label='event', pre=strs(0), effects=ev_tmpl, trusted=True, why='recorded as an event; see property P10')
EVC['free_policy_node'] = Contract('free_policy_node', modifies=[], trusted=True, why='only releases memory')
for n_ in ('free_av_rule_data', 'free_xav_rule_data', 'free_ra_data', 'free_rtyp_data', 'free_type_transition_data', 'free_role_transition_data', 'free_if_call_data'):
    EVC[n_] = Contract(n_, modifies=[], trusted=True, why='only releases memory')
POPT = dict(contracts=EVC)

# ---------------------------------------------------------------- parse_functions.c
def cur_pre(h, cc):
    c0 = cell(h, cc)
    return [('current-element pointer valid', And(nz(cc), h.valid(cc, 'cell'))), ('current element valid', And(nz(c0), h.valid(c0, 'policy_node'))),
            ('the current element is the last one of every enclosing block', Open(h, c0))]
def ok(h, r): return Eq(r, h.E('SELINT_SUCCESS'))
def copy_of(h0, h1, p, s): return And(nz(p), Eq(h0.tag(p), 0), h1.valid(p, 'char'), Eq(h1.S(p), h0.S(s)))
DF = lambda h, n, st, f: h.f(ND(h, n), st, f)
CURMOD = lambda h, cc, *a: [(('cell', 64), [cc]), (('policy_node', 'next'), [cell(h, cc)]), (('ghost', 'trace'), 'val')]
def action(fn, fl, fields, pre=lambda h, *a: [], line=-1, trace=None, fails=None, data=None, props=('P09',), ptrs=(), **kw):
    """an action that appends one element after the current one and makes it current"""
    flv = fl if callable(fl) else (lambda h, *a: h.E(fl))
    def post(h0, h1, r, cc, *a):
        c0, c1 = cell(h0, cc), cell(h1, cc); ln = a[line]
        good = ok(h1, r)
        bad = fails(h0, c0, *a) if fails else False
        fl_ = flv(h0, *a)
        out = [('fails exactly when it must', Iff(Not(good), bad))]
        out += under(good, [('the new element follows the current one', Eq(PF(h1, c0, 'next'), c1))] +
                     filled(h0, h1, c1, fl_, None, ln, parent=parent(h0, c0), next=bv(0), first_child=bv(0), prev=c0) + fields(h0, h1, c1, *a))
        out.append(('on failure the tree is unchanged', Implies(Not(good), And(Eq(c1, c0), Eq(PF(h1, c0, 'next'), PF(h0, c0, 'next'))))))
        t = tr(h0)
        out.append(('the symbol tables are updated as they must be', Eq(tr(h1), trace(h0, h1, t, c0, c1, *a) if trace else t)))
        return out
    def final(c, ex, m0, m1, pc, rv, args):
        h0, h1 = Heap(c, m0), Heap(c, m1); cc = args[0]; g = And(pc, ok(h1, rv))
        link_lemma(fn, c, m0, m1, g, None)
        spine_lemma(fn, c, m0, m1, g, cell(h0, cc), cell(h1, cc))
    o = dict(POPT); o.update(kw.pop('opts', {}))
    add(Contract(fn, pre=lambda h, cc, *a: cur_pre(h, cc) + pre(h, *a), post=post, modifies=kw.pop('modifies', CURMOD), setup=ghosty, final=final, opts=o, case=act_case, label='tree',
        ptr_types=('policy_node', 'string_list', 'char'), **kw), *props)
def isstr(h, *ps): return [('string argument valid', And(nz(p), h.valid(p, 'char'))) for p in ps]
def islist(h, *ps): return [('list argument valid', Or(isz(p), h.valid(p, 'string_list'))) for p in ps]
def holds(st, **eq):
    """data object of the new element is new and has these fields (pointers taken over as they are)"""
    def f(h0, h1, n, *a):
        out = [('with content of its own', And(nz(ND(h1, n)), Eq(h0.tag(ND(h1, n)), 0), h1.valid(ND(h1, n), st)))]
        for k, i in eq.items():
            v = DF(h1, n, st, k)
            if isinstance(i, int): out.append(('recording its %s' % k, Eq(v, a[i])))
            elif i == 'null': out.append(('recording its %s' % k, isz(v)))
            else:
                j = i[1]
                out.append(('recording a private copy of its %s' % k, If(isz(a[j]), isz(v), lambda j=j, v=v: copy_of(h0, h1, v, a[j])) if i[0] == 'copy0' else copy_of(h0, h1, v, a[j])))
        return out
    return f
cp = lambda i: ('copy', i); cp0 = lambda i: ('copy0', i)
def no_fields(h0, h1, n, *a): return [('without content', isz(ND(h1, n)))]
def str_field(i): return lambda h0, h1, n, *a: [('holding a private copy of the name', copy_of(h0, h1, ND(h1, n), a[i]))]
# arguments after cur
action('insert_header', 'NODE_HEADER', holds('header_data', module_name=cp(0), flavor=1), pre=lambda h, mn, fl, ln: isstr(h, mn))
action('insert_comment', 'NODE_COMMENT', no_fields)
action('insert_semicolon', 'NODE_SEMICOLON', no_fields)
action('insert_type_alias', 'NODE_TYPE_ALIAS', str_field(0), pre=lambda h, t, ln: isstr(h, t))
action('insert_permissive_statement', 'NODE_PERMISSIVE', str_field(0), pre=lambda h, t, ln: isstr(h, t))
action('insert_m4simplemacro', 'NODE_M4_SIMPLE_MACRO', lambda h0, h1, n, nm, ln: [('holding the name', Eq(ND(h1, n), nm))], pre=lambda h, t, ln: isstr(h, t))
action('insert_role_allow', 'NODE_ROLE_ALLOW', holds('role_allow_data', **{'from': 0, 'to': 1}), pre=lambda h, a, b, ln: islist(h, a, b))
action('insert_role_transition', 'NODE_RT_RULE', holds('role_transition_data', sources=0, targets=1, object_classes=2, default_role=cp(3)), pre=lambda h, a, b, c, d, ln: islist(h, a, b, c) + isstr(h, d))
action('insert_xperm_av_rule', 'NODE_XAV_RULE', holds('xav_rule_data', flavor=0, sources=1, targets=2, object_classes=3, operation=cp(4), perms=5),
       pre=lambda h, f, a, b, c, o, p, ln: islist(h, a, b, c, p) + isstr(h, o))
def in_if(h, c0): return And(nz(parent(h, c0)), lambda_and(lambda: Eq(FL(h, parent(h, c0)), h.E('NODE_INTERFACE_DEF')), nz(parent(h, c0))))
def if_name(h, c0): return h.S(ND(h, parent(h, c0)))
def mark(kind, cond):
    return lambda h0, h1, t, c0, c1, *a: If(And(in_if(h0, c0), cond(h0, c0, *a)), lambda: ev(h0, 'mark_' + kind, t, if_name(h0, c0)), t)
action('insert_av_rule', 'NODE_AV_RULE', holds('av_rule_data', flavor=0, sources=1, targets=2, object_classes=3, perms=4), pre=lambda h, f, a, b, c, p, ln: islist(h, a, b, c, p),
       trace=mark('transform', lambda h, c0, f, s, t, o, p, ln: InSL(h, h.lit(b'associate'), p)), props=('P09', 'P22'))
DollarIn = any_rec('DollarIn', lambda h, s: Eq(h.ch(s, 0), ord('$')))
action('insert_role_types', 'NODE_ROLE_TYPES', holds('role_types_data', role=cp(0), types=1), pre=lambda h, r, l, ln: isstr(h, r) + islist(h, l),
       trace=mark('role', lambda h, c0, r, l, ln: DollarIn(h, l)), tails=[lambda h, p: DollarIn(h, p)], props=('P09', 'P22'))
action('insert_type_transition', 'NODE_TT_RULE', holds('type_transition_data', flavor=0, sources=1, targets=2, object_classes=3, default_type=cp(4), name=cp0(5)),
       pre=lambda h, f, a, b, c, d, n, ln: islist(h, a, b, c) + isstr(h, d) + [('name null or a string', Or(isz(n), h.valid(n, 'char')))],
       trace=mark('filetrans', lambda h, c0, f, a, b, cl, d, n, ln: Not(InSL(h, h.lit(b'process'), cl))), props=('P09', 'P22'))
def modname(h): return h.g('module_name')
def mod_ok(h): return [('current module name null or a string', Or(isz(modname(h)), h.valid(modname(h), 'char')))]
def if_called(h0, h1, t, c0, c1, nm, args, ln):
    s = h0.S(nm); tn = TmplName(h0, c0)
    t1 = z3.If(tn != 0, ev(h0, 'template_call', t, h0.S(tn), ND(h1, c1)), ev(h0, 'expand', t, s, args, bv(0), modname(h0)))
    ft = Or(Eq(s, h0.lit(b'filetrans_pattern')), Eq(s, h0.lit(b'filetrans_add_pattern')), is_ft_suffix(h0, s))
    fail = And(tn == 0, h0.uf('expand_result', [Trace, z3.BitVecSort(32)], t1) != h0.E('SELINT_SUCCESS'))
    return If(fail, t1, lambda: If(And(in_if(h0, c0), ft), lambda: ev(h0, 'mark_filetrans', t1, if_name(h0, c0)), t1))
def is_ft_suffix(h, s): return And(h.haschr(s, b'_'), Eq(h.suf(s, h.ridxchr(s, b'_')), h.lit(b'_filetrans')))
def call_fails(h, c0, nm, args, ln):
    t1 = ev(h, 'expand', tr(h), h.S(nm), args, bv(0), modname(h))
    return And(TmplName(h, c0) == 0, h.uf('expand_result', [Trace, z3.BitVecSort(32)], t1) != h.E('SELINT_SUCCESS'))
def ic_trace(h0, h1, t, c0, c1, nm, args, ln): return if_called(h0, h1, t, c0, c1, nm, args, ln)
action('insert_interface_call', 'NODE_IF_CALL', holds('if_call_data', name=cp(0), args=1), pre=lambda h, n, l, ln: isstr(h, n) + islist(h, l) + mod_ok(h), trace=ic_trace, fails=call_fails, props=('P09', 'P22'))
def dollar(h, s): return Eq(h.ch(h.S(s), 0), ord('$'))
def decl_fails(h, c0, fl, nm, at, ln): return And(Not(InReq(h, c0)), TmplName(h, c0) == 0, Not(dollar(h, nm)), modname(h) == 0)
def decl_trace(h0, h1, t, c0, c1, fl, nm, at, ln):
    tn = TmplName(h0, c0); mn = modname(h0)
    return If(InReq(h0, c0), t, lambda: If(tn != 0, lambda: ev(h0, 'template_decl', t, h0.S(tn), fl, h0.S(nm)),
              lambda: If(Or(dollar(h0, nm), mn == 0), t, lambda: ev(h0, 'declare', t, h0.S(nm), h0.S(mn), fl))))
action('insert_declaration', 'NODE_DECL', holds('declaration_data', flavor=0, name=cp(1), attrs=2), pre=lambda h, f, n, l, ln: isstr(h, n) + islist(h, l) + mod_ok(h), trace=decl_trace, fails=decl_fails, props=('P09', 'P22'))
def attr_trace(h0, h1, t, c0, c1, ty, at, ln):
    mn = h0.S(modname(h0)); nm = lambda: if_name(h0, c0)
    return If(And(in_if(h0, c0), lambda_and(lambda: Or(transform_if_name(h0, nm()), Eq(mn, h0.lit(b'mls')), Eq(mn, h0.lit(b'mcs'))), in_if(h0, c0))), lambda: ev(h0, 'mark_transform', t, nm()), t)
SUFFIXES = 'type file domain node agent delivery sender boolean content constrained executable exemption object mountpoint'.split()
def transform_if_name(h, s): return And(h.haschr(s, b'_'), Or([Eq(h.suf(s, h.ridxchr(s, b'_')), h.lit(b'_' + x.encode())) for x in SUFFIXES]))
for fn, fl, af in (('insert_type_attribute', 'NODE_TYPE_ATTRIBUTE', 'ATTR_TYPE'), ('insert_role_attribute', 'NODE_ROLE_ATTRIBUTE', 'ATTR_ROLE')):
    def flds(h0, h1, n, ty, at, ln, af=af): return holds('attribute_data', type=cp(0), attrs=1)(h0, h1, n, ty, at, ln) + [('of the right attribute kind', Eq(DF(h1, n, 'attribute_data', 'flavor'), h0.E(af)))]
    action(fn, fl, flds, pre=lambda h, t, l, ln: isstr(h, t) + islist(h, l) + [('module name set', And(nz(modname(h)), h.valid(modname(h), 'char')))], trace=attr_trace, props=('P09', 'P22'))

# ---- blocks
def block_action(fn, fl, data, pre=lambda h, *a: [], trace=None, props=('P09',), fl_ok=None):
    flv = fl if callable(fl) else (lambda h, *a: h.E(fl))
    def post(h0, h1, r, cc, *a):
        c0, c1 = cell(h0, cc), cell(h1, cc); ln = a[-1]; b = PF(h1, c0, 'next')
        good = ok(h1, r); may = fl_ok(h0, *a) if fl_ok else True
        out = [('succeeds exactly when it can', Iff(good, may))]
        out += under(good, filled(h0, h1, b, flv(h0, *a), None, ln, parent=parent(h0, c0), next=bv(0), first_child=c1, prev=c0) + data(h0, h1, b, *a) +
            [('start marker: ' + x, y) for x, y in filled(h0, h1, c1, h0.E('NODE_START_BLOCK'), bv(0), ln, parent=b, next=bv(0), first_child=bv(0), prev=bv(0))])
        out.append(('on failure the tree is unchanged', Implies(Not(good), And(Eq(c1, c0), Eq(b, PF(h0, c0, 'next'))))))
        t = tr(h0)
        out.append(('the symbol tables are updated as they must be', Eq(tr(h1), trace(h0, h1, t, c0, c1, *a) if trace else t)))
        return out
    def final(c, ex, m0, m1, pc, rv, args):
        h0, h1 = Heap(c, m0), Heap(c, m1); cc = args[0]; g = And(pc, ok(h1, rv))
        link_lemma(fn, c, m0, m1, g, None)
        spine_lemma(fn, c, m0, m1, g, cell(h0, cc), cell(h1, cc))
    add(Contract(fn, pre=lambda h, cc, *a: cur_pre(h, cc) + pre(h, *a), post=post, modifies=CURMOD, setup=ghosty, final=final, opts=dict(POPT), case=act_case, label='tree', ptr_types=('policy_node',)), *props)
def end_action(fn, *fls, extra=None, mods=lambda h, cc, *a: []):
    def post(h0, h1, r, cc, *a):
        c0, c1 = cell(h0, cc), cell(h1, cc); p = parent(h0, c0)
        inb = And(nz(p), lambda_and(lambda: isfl(h0, p, *fls), nz(p)))
        return [('succeeds exactly inside such a block', Iff(ok(h1, r), inb)), ('otherwise reports that no such block is open', Implies(Not(inb), And(Eq(r, h0.E('SELINT_NOT_IN_BLOCK')), Eq(c1, c0)))),
                ('the block that was opened becomes the current element', Implies(inb, Eq(c1, p)))] + (extra(h0, h1, c0, p, inb, *a) if extra else [])
    def final(c, ex, m0, m1, pc, rv, args):
        h0, h1 = Heap(c, m0), Heap(c, m1); cc = args[0]
        spine_lemma(fn, c, m0, m1, pc, cell(h0, cc), cell(h1, cc))
    add(Contract(fn, pre=lambda h, cc, *a: cur_pre(h, cc), post=post, modifies=lambda h, cc, *a: [(('cell', 64), [cc])] + mods(h, cc, *a), setup=ghosty, final=final, opts=dict(POPT), case=act_case, label='tree', ptr_types=('policy_node',)), 'P09')
for nm, fl in (('define', 'NODE_DEFINE'), ('optional_policy', 'NODE_OPTIONAL_POLICY'), ('optional_else', 'NODE_OPTIONAL_ELSE'), ('boolean_policy', 'NODE_BOOLEAN_POLICY'),
               ('tunable_policy', 'NODE_TUNABLE_POLICY'), ('require', 'NODE_REQUIRE'), ('ifdef', 'NODE_IFDEF'), ('ifelse', 'NODE_IFELSE'), ('m4_argument', 'NODE_M4_ARG')):
    block_action('begin_' + nm, fl, no_fields); end_action('end_' + nm, fl)
block_action('begin_gen_require', 'NODE_GEN_REQ', lambda h0, h1, n, *a: [('with content of its own', And(nz(ND(h1, n)), Eq(h0.tag(ND(h1, n)), 0)))])
end_action('end_gen_require', 'NODE_GEN_REQ', extra=lambda h0, h1, c0, p, inb, u: [('quoting is remembered', Implies(inb, Eq(h1.f(ND(h0, p), 'gen_require_data', 'unquoted'), u)))],
    mods=lambda h, cc, u: [(('gen_require_data', 'unquoted'), [ND(h, parent(h, cell(h, cc)))])])
block_action('begin_interface_def', lambda h, fl, nm, ln: fl, str_field(1), pre=lambda h, fl, nm, ln: isstr(h, nm) + [('module name set', And(nz(modname(h)), h.valid(modname(h), 'char')))],
    fl_ok=lambda h, fl, nm, ln: Or(Eq(fl, h.E('NODE_INTERFACE_DEF')), Eq(fl, h.E('NODE_TEMP_DEF'))), props=('P09', 'P22'),
    trace=lambda h0, h1, t, c0, c1, fl, nm, ln: If(Eq(fl, h0.E('NODE_TEMP_DEF')), lambda: ev(h0, 'interface', ev(h0, 'template', t, h0.S(nm)), h0.S(nm), h0.S(modname(h0))),
          lambda: If(Eq(fl, h0.E('NODE_INTERFACE_DEF')), lambda: ev(h0, 'interface', t, h0.S(nm), h0.S(modname(h0))), t)))
end_action('end_interface_def', 'NODE_INTERFACE_DEF', 'NODE_TEMP_DEF')
def ev_child(c, mem, pc, p, fl, data, line):
    h = Heap(c, mem)
    c.oblige('insert_aliases: each alias element holds a string of its own', 'pre', pc, And(nz(data), Eq(c.tag0(data), 0), h.valid(data, 'char')), None)
    c.setregion(mem, ('ghost', 'trace'), ev(h, 'child', tr(h), p, fl, h.S(data), line)); return ok32(c)
ALOPT = dict(POPT, contracts=dict(EVC, insert_policy_node_child=Contract('insert_policy_node_child', label='event', effects=ev_child, trusted=True,
    pre=lambda h, p, *a: [('parent valid', And(nz(p), h.valid(p, 'policy_node')))], why='recorded as an event; the function is verified under its own contract')))
AliasT = RecFn('AliasT', [Trace, BV64, BV64, B32, B32], Trace, lambda h, t, l, c0, fl, ln: If(isz(l), t, lambda:
    AliasT(h, alias1(h, t, l, c0, fl, ln), NX(h, l), c0, fl, ln)))
def alias1(h, t, l, c0, fl, ln):
    tn = TmplName(h, c0); mn = modname(h); s = SV(h, l)
    return ev(h, 'child', z3.If(tn != 0, ev(h, 'template_decl', t, h.S(tn), fl, s), ev(h, 'declare', t, s, h.S(mn), fl)), c0, bv(h.E('NODE_ALIAS'), 32), s, ln)
def al_args(h, p): cc, l, fl, ln = h.ctx.root_args; return cell(h, cc), fl, ln
def al_post(h0, h1, r, cc, l, fl, ln):
    c0 = cell(h0, cc); bad = And(nz(l), TmplName(h0, c0) == 0, modname(h0) == 0)
    return [('fails exactly when there is no module to record for', Iff(ok(h0, r), Not(bad))), ('the current element stays', Eq(cell(h1, cc), c0)),
            ('every alias is recorded and added below the declaration, in order', Implies(Not(bad), Eq(tr(h1), AliasT(h0, tr(h0), l, c0, fl, ln)))),
            ('nothing is recorded on failure', Implies(bad, Eq(tr(h1), tr(h0))))]
add(Contract('insert_aliases', label='tree', pre=lambda h, cc, l, fl, ln: cur_pre(h, cc) + islist(h, l) + mod_ok(h), post=al_post, modifies=lambda h, *a: [(('ghost', 'trace'), 'val')], setup=ghosty, opts=ALOPT, case=act_case,
    inv=[('a module or template is known', lambda h, A, L, p: None if p.sort() != BV64 else Or(And(p == A[1], tr(h) == tr(Heap(h.ctx, {}))), TmplName(h, cell(h, A[0])) != 0, modname(h) != 0))], tails=[lambda h, p: AliasT(h, tr(h), p, *al_args(h, p))], ptr_types=('policy_node', 'string_list')), 'P09', 'P22')
add(Contract('set_current_module_name', label='tree', pre=lambda h, s: isstr(h, s), post=lambda h0, h1, r, s: [('the current module is named by a private copy', copy_of(h0, h1, modname(h1), s))],
    modifies=lambda h, s: [(h.ctx.global_region('module_name'), 'val')], case=act_case), 'P22')
