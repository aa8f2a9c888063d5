"""maps.c: the symbol tables obey the laws of finite maps.  A mutator is specified by what every
look-up function (executed symbolically on the real code) answers afterwards for an arbitrary key,
in terms of what it answered before: nothing is said about how the tables are represented."""
from specs.te import *
import cx, externs

NFL = 'DECL_TYPE DECL_ATTRIBUTE DECL_ATTRIBUTE_ROLE DECL_ROLE DECL_USER DECL_CLASS DECL_PERM DECL_BOOL'.split()
def owner(c, p): return c.uf('table_of', [BV64, INTS], p)
KEYF = {'template_hash_elem': 'name'}
def m_wf(c, r, K):
    """table invariant: an entry is a valid element of that table only, filed under its own key"""
    st = externs.hstruct(c, r); kf = KEYF.get(st, 'key')
    tid = c.__dict__.setdefault('tableids', {}).setdefault(r, len(c.__dict__.get('tableids', {})) + 1)
    rl = c.readlog; c.readlog = None
    v = c.region({}, r)[K]
    kp = c.region({}, (st, kf))[v]
    c.axiom(Or(v == 0, And(c.valid({}, v, st), owner(c, v) == tid, kp != 0, c.valid({}, kp, 'char'), c.region({}, ('STR',))[kp] == K)))
    c.readlog = rl
def m_add(c, mem, r, K, key, el, pc, line, who):
    st = externs.hstruct(c, r); kf = KEYF.get(st, 'key')
    c.oblige('%s: the element added is newly created' % who, 'hash', pc, And(Ne(el, bv(0)), c.tag0(el) == 0, c.okaccess(mem, el, st)), line)
    c.oblige('%s: the element added owns a private copy of its key' % who, 'hash', pc, And(c.region(mem, (st, kf))[el] == key, c.tag0(key) == 0), line)
MOPT = dict(hash_wf=m_wf, hash_add=m_add, frame_skip=('HT', 'HTN'))

# ---- observers: name -> (function, has flavour argument, has key, kind of answer)
OBS = {
 'decl': ('look_up_in_decl_map', 'kf', 'str'), 'mods': ('look_up_in_mods_map', 'k', 'str'), 'mod_layers': ('look_up_in_mod_layers_map', 'k', 'str'),
 'ifs': ('look_up_in_ifs_map', 'k', 'str'), 'transform': ('is_transform_if', 'k', 'int'), 'filetrans': ('is_filetrans_if', 'k', 'int'), 'role_if': ('is_role_if', 'k', 'int'),
 'permmacros': ('look_up_in_permmacros_map', 'k', 'ptr'), 'template': ('look_up_in_template_map', 'k', 'ptr'), 'template declarations': ('look_up_decl_in_template_map', 'k', 'ptr'),
 'template calls': ('look_up_call_in_template_map', 'k', 'ptr'), 'symbol count': ('decl_map_count', 'f', 'int'), 'permission macro count': ('permmacros_map_count', '', 'int'),
}
class View:
    """all the answers in one memory state, for key pointer k and flavour f"""
    def __init__(s, c, ex, mem, tag): s.c, s.ex, s.mem, s.tag, s.memo = c, ex, mem, tag, {}
    def __call__(s, o, k=None, f=None):
        fnname, sig, kind = OBS[o]
        key = (o, k.get_id() if k is not None else None, f.get_id() if f is not None else None)
        if key in s.memo: return s.memo[key]
        c = s.c; fn = c.prog.find(fnname)
        if fn is None: raise Unsupported('function %s not found' % fnname)
        if sig == 'kf' and not c.prog.find(fnname).params[1][1].k == 'int': raise Unsupported('signature of ' + fnname)
        a = [x for x, ch in ((k, 'k'), (f, 'f')) if ch in sig]
        m = dict(s.mem)
        pc, m1, rv = s.ex.call_fn(fn, a, TRUE, m, '%s%s@%d' % (s.tag, fnname, len(s.memo)))
        for r in m1:
            if r[0] in ('a', 'aa', 'tag') or c.region(s.mem, r).eq(m1[r]): continue
            raise Unsupported('%s changes %s' % (fnname, r))
        if kind == 'str': out = (Eq(rv, bv(0)), rv, c.strof(m1, rv), c.strvalid(m1, rv))
        else: out = rv
        s.memo[key] = out; return out
def pick(c, args):
    k = z3.Const('any_key', BV64); f = z3.Const('any_flavour', z3.BitVecSort(32))
    c.axiom(k != 0); c.axiom(c.valid({}, k, 'char')); c.axiom(z3.UGT(k, bv(1 << 32))); c.axiom(z3.ULT(k, bv(1 << 47)))
    return k, f
def laws(name, obs, law, lenlaw=None, frame=(), extra=None, props=('P08',), **kw):
    def final(c, ex, m0, m1, pc, rv, args):
        k, f = pick(c, args)
        V0, V1 = View(c, ex, m0, 'pre:'), View(c, ex, m1, 'post:')
        S0 = lambda p: c.strof(m0, p)
        def ob(lab, g): c.oblige('%s: %s' % (name, lab), 'post', pc, g, None, then_assume=False)
        for o in OBS:
            sig, kind = OBS[o][1:]
            b, a = V0(o, k if 'k' in sig else None, f if 'f' in sig else None), V1(o, k if 'k' in sig else None, f if 'f' in sig else None)
            hit, val = FALSE, None
            if o in law: hit, val = law[o](c, V0, S0, m1, args, k, f, b)
            if kind == 'str':
                if val is not None: ob('%s look-up: the first definition of a name is stored' % o, Implies(hit, And(Not(a[0]), a[3], a[2] == val, c.tag0(a[1]) == 0)))
                ob('%s look-up: every other name keeps its answer' % o if val is not None else '%s look-up is not affected' % o,
                   Implies(Not(hit), And(a[1] == b[1], Implies(Not(b[0]), a[2] == b[2]))))
            else:
                if val is not None: ob('%s: new answer for the entry concerned' % o, Implies(hit, val(a) if callable(val) else Eq(a, val)))
                ob(('%s: every other answer stays' if val is not None else '%s: not affected') % o, Implies(Not(hit), Eq(a, b)))
        if extra: extra(c, ex, V0, V1, m0, m1, pc, args, ob)
    def pre(h, *a):
        return [('string argument %d is valid' % i, And(nz(x), h.valid(x, 'char'))) for i, x in enumerate(a) if i in kw.get('strs', (0,))] + (kw['pre'](h, *a) if 'pre' in kw else [])
    add(Contract(name, pre=pre, final=final, modifies=lambda h, *a: list(frame(h, *a) if callable(frame) else frame), opts=dict(MOPT, inline=INL, **kw.get('opts', {})), ptr_types=('decl_list', 'if_call_list'), case=lambda *x: m_case(*x), label='laws', tails=kw.get('tails', ())), *props)
INL = {v[0] for v in OBS.values()}
def okfl(c, f): return Or([f == bv(c.prog.enums[x], 32) for x in NFL])

def l_decl(c, V0, S0, m1, a, k, f, b):
    return And(f == a[2], okfl(c, f), S0(k) == S0(a[0]), b[0]), S0(a[1])
def l_cnt(c, V0, S0, m1, a, k, f, b):
    return And(f == a[2], okfl(c, f), V0('decl', a[0], a[2])[0]), b + 1
laws('insert_into_decl_map', 'decl', {'decl': l_decl, 'symbol count': l_cnt}, strs=(0, 1))
for fn, o in (('insert_into_mods_map', 'mods'), ('insert_into_mod_layers_map', 'mod_layers'), ('insert_into_ifs_map', 'ifs')):
    laws(fn, o, {o: lambda c, V0, S0, m1, a, k, f, b: (And(S0(k) == S0(a[0]), b[0]), S0(a[1]))}, strs=(0, 1))
for fn, o in (('mark_transform_if', 'transform'), ('mark_filetrans_if', 'filetrans'), ('mark_role_if', 'role_if')):
    laws(fn, o, {o: lambda c, V0, S0, m1, a, k, f, b: (S0(k) == S0(a[0]), lambda v: Ne(v, bv(0, 32)))}, frame=[(('bool_hash_elem', 'val'), '*')], props=('P08', 'P20') if o == 'transform' else ('P08',))
laws('insert_into_permmacros_map', 'permmacros', {'permmacros': lambda c, V0, S0, m1, a, k, f, b: (And(S0(k) == S0(a[0]), b == 0), a[1]),
    'permission macro count': lambda c, V0, S0, m1, a, k, f, b: (V0('permmacros', a[0]) == 0, b + 1)}, pre=lambda h, n, l: [('permissions given', And(nz(l), h.valid(l, 'string_list')))])

# ---- templates: declarations and calls are appended in order
LastD = RecFn('LastD', [BV64], BV64, lambda h, n: If(isz(h.f(n, 'decl_list', 'next')), n, lambda: LastD(h, h.f(n, 'decl_list', 'next'))))
LastC = RecFn('LastC', [BV64], BV64, lambda h, n: If(isz(h.f(n, 'if_call_list', 'next')), n, lambda: LastC(h, h.f(n, 'if_call_list', 'next'))))
def t_new(c, V0, S0, m1, a, k, f, b): return And(S0(k) == S0(a[0]), b == 0), lambda v: And(v != 0, c.tag0(v) == 0)
def t_null(c, V0, S0, m1, a, k, f, b): return And(S0(k) == S0(a[0]), V0('template', a[0]) == 0), bv(0)
laws('insert_template_into_template_map', 'template', {'template': t_new, 'template declarations': t_null, 'template calls': t_null})
def t_first(o):
    def f(c, V0, S0, m1, a, k, f, b):
        return And(S0(k) == S0(a[0]), Or(V0('template', a[0]) == 0, V0(o, a[0]) == 0)), lambda v: And(v != 0, c.tag0(v) == 0)
    return f
def app_extra(o, st, Last, fields):
    def g(c, ex, V0, V1, m0, m1, pc, a, ob):
        b, v = V0(o, a[0]), V1(o, a[0]); h0, h1 = Heap(c, m0), Heap(c, m1)
        first = Or(V0('template', a[0]) == 0, b == 0)
        new = Ite(first, v, h1.f(Last(h0, b), st, 'next'))
        ob('the new item is appended after the existing ones', And(new != 0, c.tag0(new) == 0, Implies(Not(first), v == b), h1.f(new, st, 'next') == 0))
        for lab, q in fields(c, h0, h1, new, a): ob(lab, q)
    return g
def tfr(o, st, Last):
    def g(h, *a): return [((st, 'next'), [h.ctx.fresh('last', BV64)])]
    return g
def d_fields(c, h0, h1, new, a):
    d = h1.f(new, 'decl_list', 'decl')
    return [('with the given kind of symbol', And(d != 0, h1.f(d, 'declaration_data', 'flavor') == a[1])),
            ('and a private copy of the name', And(h1.S(h1.f(d, 'declaration_data', 'name')) == h0.S(a[2]), c.tag0(h1.f(d, 'declaration_data', 'name')) == 0))]
def only_last(o, st, Last):
    """list links of existing objects change only at the end of this template's list"""
    def g(c, ex, V0, V1, m0, m1, pc, a, ob):
        b = V0(o, a[0]); p = c.fresh('frame', BV64); r = c.rname(st, 'next')
        ob('no other list is touched', Implies(And(c.tag0(p) != 0, Or(V0('template', a[0]) == 0, b == 0, p != Last(Heap(c, m0), b))), c.select(c.region(m1, r), p) == c.region(m0, r)[p]))
    return g
def both(*fs):
    def g(*a):
        for f in fs: f(*a)
    return g
laws('insert_decl_into_template_map', 'template declarations', {'template': t_new, 'template declarations': t_first('template declarations'), 'template calls': t_null},
     extra=both(app_extra('template declarations', 'decl_list', LastD, d_fields), only_last('template declarations', 'decl_list', LastD)), strs=(0, 2),
     frame=[(('decl_list', 'next'), '*'), (('template_hash_elem', 'declarations'), '*')], tails=[lambda h, p: LastD(h, p)])
laws('insert_call_into_template_map', 'template calls', {'template': t_new, 'template declarations': t_null, 'template calls': t_first('template calls')},
     extra=both(app_extra('template calls', 'if_call_list', LastC, lambda c, h0, h1, new, a: [('with the given call', h1.f(new, 'if_call_list', 'call') == a[1])]), only_last('template calls', 'if_call_list', LastC)),
     frame=[(('if_call_list', 'next'), '*'), (('template_hash_elem', 'calls'), '*')], tails=[lambda h, p: LastC(h, p)], pre=lambda h, n, call: [('call given', And(nz(call), h.valid(call, 'if_call_data')))])

# ---- look-ups depend only on the characters of the key and change nothing
def pure(o):
    fnname, sig, kind = OBS[o]
    def final(c, ex):
        k, f = pick(c, None); k2 = z3.Const('same_key', BV64)
        c.axiom(k2 != 0); c.axiom(c.valid({}, k2, 'char')); c.axiom(z3.UGT(k2, bv(1 << 32))); c.axiom(z3.ULT(k2, bv(1 << 47)))
        V = View(c, ex, {}, ''); h = Heap(c, {})
        a = V(o, k if 'k' in sig else None, f if 'f' in sig else None)
        if 'k' in sig:
            b = V(o, k2, f if 'f' in sig else None)
            if kind == 'str': a, b = a[1], b[1]
            c.oblige('%s: the answer depends only on the characters of the name' % fnname, 'post', TRUE, Implies(c.strof({}, k) == c.strof({}, k2), Eq(a, b)), None, then_assume=False)
        if o == 'decl':
            z = V(o, bv(0), f)
            c.oblige('%s: no name, no symbol' % fnname, 'post', TRUE, z[1] == 0, None, then_assume=False)
    add(Contract(fnname, label='pure', ghost_pure=True, final=final, opts=dict(MOPT, inline=INL), case=lambda *x: m_case(*x)), *(('P08', 'P20') if o == 'transform' else ('P08',)))
for o in OBS:
    if o != 'permission macro count': pure(o)

# ---- concrete counterpart: random histories against dictionaries
def m_case(con, nat, w):
    r = w.rng
    nat.fn('free_all_maps')()
    E = w.prog.enums; fls = [E[x] for x in NFL]
    from gen import literals
    names = [r.choice([b'a', b'b', b'ab', b'foo_t', b'foo', b'', b'_t', b'fo']) if r.random() < .7 else r.choice([b'x' * 40, b'x' * 40 + b'y', b'long_name_' * 8, b'long_name_' * 8 + b'_t', b'A', r.choice(literals())]) for i in range(4)]
    if r.random() < .4: names[1] = names[0] + r.choice([b'_t', b'x', b' '])
    M = {k: {} for k in ('mods', 'mod_layers', 'ifs', 'transform', 'filetrans', 'role_if', 'permmacros', 'tmpl')}; D = {}
    hist = []
    def s(b): return w.str(b)
    def check():
        def S(p): return None if not p else ctypes_str(p)
        for f in fls + [max(fls) + 1]:
            for n in names:
                g = S(nat.fn('look_up_in_decl_map')(s(n), f))
                if g != D.get((f, n)): return 'look_up_in_decl_map(%r, %d) = %r, expected %r' % (n, f, g, D.get((f, n)))
            g = nat.fn('decl_map_count')(f); x = sum(1 for k in D if k[0] == f)
            if g != x: return 'decl_map_count(%d) = %d, expected %d' % (f, g, x)
        for m in ('mods', 'mod_layers', 'ifs'):
            for n in names:
                g = S(nat.fn('look_up_in_%s_map' % m)(s(n)))
                if g != M[m].get(n): return 'look_up_in_%s_map(%r) = %r, expected %r' % (m, n, g, M[m].get(n))
        for m, fn in (('transform', 'is_transform_if'), ('filetrans', 'is_filetrans_if'), ('role_if', 'is_role_if')):
            for n in names:
                g = nat.fn(fn)(s(n))
                if bool(g) != (n in M[m]): return '%s(%r) = %d' % (fn, n, g)
        for n in names:
            g = nat.fn('look_up_in_permmacros_map')(s(n))
            if g != M['permmacros'].get(n, 0): return 'look_up_in_permmacros_map(%r)' % n
            t = nat.fn('look_up_in_template_map')(s(n))
            if bool(t) != (n in M['tmpl']): return 'look_up_in_template_map(%r)' % n
            h = cx.CHeap(w)
            got = []; p = nat.fn('look_up_decl_in_template_map')(s(n))
            while p and len(got) < 40: d = h.f(p, 'decl_list', 'decl'); got.append((h.f(d, 'declaration_data', 'flavor'), h.S(h.f(d, 'declaration_data', 'name')))); p = h.f(p, 'decl_list', 'next')
            if got != M['tmpl'].get(n, ([], []))[0]: return 'declarations of template %r: %r, expected %r' % (n, got, M['tmpl'].get(n, ([], []))[0])
            got = []; p = nat.fn('look_up_call_in_template_map')(s(n))
            while p and len(got) < 40: got.append(h.f(p, 'if_call_list', 'call')); p = h.f(p, 'if_call_list', 'next')
            if got != M['tmpl'].get(n, ([], []))[1]: return 'calls of template %r' % n
        if nat.fn('permmacros_map_count')() != len(M['permmacros']): return 'permmacros_map_count'
        return None
    for i in range(r.randrange(1, 14)):
        op = r.choice(['decl'] * 5 + ['mods', 'mod_layers', 'ifs', 'transform', 'filetrans', 'role_if', 'permmacros', 'tmpl', 'tdecl', 'tdecl', 'tcall', 'tcall'])
        n, v = r.choice(names), b'v%d' % i if r.random() < .6 else r.choice(literals() + [b'off', b'base', b'module']); f = r.choice(fls)
        hist.append((op, n.decode(), v.decode(), f))
        b = s(n)
        if op == 'decl': nat.fn('insert_into_decl_map')(b, s(v), f); D.setdefault((f, n), v)
        elif op in ('mods', 'mod_layers', 'ifs'): nat.fn('insert_into_%s_map' % op)(b, s(v)); M[op].setdefault(n, v)
        elif op in ('transform', 'filetrans', 'role_if'): nat.fn('mark_%s' % ({'role_if': 'role_if'}.get(op, op + '_if')))(b); M[op].setdefault(n, 1)
        elif op == 'permmacros':
            l = nat.fn('copy_string_list')(w.sl([v])); nat.fn('insert_into_permmacros_map')(b, l); M[op].setdefault(n, l)
        else:
            t = M['tmpl'].setdefault(n, ([], []))
            if op == 'tmpl': nat.fn('insert_template_into_template_map')(b)
            elif op == 'tdecl': q = s(v); nat.fn('insert_decl_into_template_map')(b, f, q); t[0].append((f, v)); w.set
            else: d = w.obj('if_call_data', name=v, args=0); nat.fn('insert_call_into_template_map')(b, d); t[1].append(d)
        ctypes.memset(b, ord('#'), len(n))       # the caller's buffer may change afterwards
        e = check()
        if e: return dict(obligation='symbol tables answer like finite maps in which the first definition wins', input=dict(history=hist), actual=e)
    return None
import ctypes
def ctypes_str(p): return ctypes.string_at(p)
