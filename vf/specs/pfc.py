"""parse_fc.c: parsing of file-context lines"""
from specs.boot import *
import gen

# ---------------------------------------------------------------- strtok, strcpy, strcat over immutable-value strings
def cat(c, x, y):
    t = c.uf('cat', [Str, Str, Str], x, y); c.axiom(c.slen(t) == c.slen(x) + c.slen(y)); return t
def tk(h, R, sep):
    """first token of text R for a set of separators: (is there one, the token, text left, offset of the token, offset of the text left)"""
    if h.concrete:
        i = 0
        while i < len(R) and R[i] in sep: i += 1
        j = i
        while j < len(R) and R[j] not in sep: j += 1
        return i < len(R), R[i:j], R[j + 1:], i, min(j + 1, len(R))
    c = h.ctx; nm = bytes(sorted(sep)).hex(); u = lambda n, so: c.uf('%s_%s' % (n, nm), [Str, so], R)
    have, t, rest, sp, o2 = u('tok_any', BOOL), u('tok', Str), u('tok_rest', Str), u('tok_at', BV64), u('tok_after', BV64)
    if (R.get_id(), nm) not in c.__dict__.setdefault('tkax', {}):
        c.tkax[(R.get_id(), nm)] = ax = [Implies(have, And(z3.ULT(sp, c.slen(R)), c.slen(t) != 0, c.ch(t) != 0)), z3.ULE(sp, o2), z3.ULE(o2, c.slen(R)), c.slen(rest) == c.slen(R) - o2,
            z3.ULE(c.slen(t), c.slen(R)), z3.ULE(c.slen(t), c.slen(R) - sp), z3.ULE(c.slen(rest), c.slen(R))]
        c.keep.append(R)
        for x in ax: c.axiom(x)
    return have, t, rest, sp, o2
def root(c, p): return c.origin[p.get_id()][0] if p.get_id() in c.origin else p
def x_tok(c, mem, pc, s, delim):
    h = Heap(c, mem)
    if not (z3.is_bv_value(delim) and delim.as_long() in c.litaddr): raise Unsupported('separators of strtok')
    sep = c.litaddr[delim.as_long()]; STR_ = ('STR',)
    g = lambda n, so: c.ghost(mem, n, so)
    toks = c.__dict__.setdefault('toks', [])
    if isval(s) and s.as_long() == 0: R, B, O, T0 = g('tokrest', Str), g('tokbase', BV64), g('tokoff', BV64), g('toktext', Str)
    else:
        c.oblige('strtok: argument is a valid string', 'pre', pc, And(Ne(s, bv(0)), c.strvalid(mem, s)), None)
        R, B, O = c.strof(mem, s, True), s, bv(0); b = root(c, s); T0 = R
        if isval(b): raise Unsupported('strtok on a literal')
        for q in [b] + [q for q, _, _ in toks if not q.eq(b)]:     # other tokens may be parts of the same text
            c.setregion(mem, STR_, z3.Store(c.region(mem, STR_), q, c.fresh('cut_up', Str)))
    have, t, rest_, o1, o2 = tk(h, R, sep)
    p = c.malloc(mem, None, pc, 'char')
    c.setregion(mem, STR_, z3.Store(c.region(mem, STR_), p, t))
    at, nx = c.fresh('tok_at', BV64), c.fresh('tok_next', BV64); c.axiom(at == O + o1); c.axiom(nx == O + o2)
    if 'paths' in c.opts:
        at0 = And(z3.ULE(O, c.slen(T0)), c.slen(R) == c.slen(T0) - O); known = c.__dict__.setdefault('tokpos', set())
        if R.eq(T0) or at0.get_id() in known:
            goal = And(z3.ULE(nx, c.slen(T0)), c.slen(rest_) == c.slen(T0) - nx); known.add(goal.get_id()); c.keep.append(goal)
            prem = [at == O + o1, nx == O + o2] + c.tkax[(R.get_id(), bytes(sorted(sep)).hex())] + ([] if R.eq(T0) else [at0])
            for g in (goal, Implies(have, And(z3.ULT(at, c.slen(T0)), z3.ULE(c.slen(t), c.slen(T0) - at)))): c.oblige('strtok: position in the text', 'lemma', pc, g, None, hk=('local', And(prem)))
    for n, v in (('tokrest', rest_), ('tokbase', B), ('tokoff', nx), ('toktext', T0)): c.setregion(mem, ('ghost', n), v)
    toks.append((p, B, at))
    return z3.If(have, p, bv(0))
def room(c, mem, pc, d, n, what):
    raw = Eq(c.select(c.region(mem, ('tag',)), d), c.tagid('rawmem'))
    dyn = z3.ULT(n, c.uf('objsize', [BV64, BV64], d)); cap = And(c.strvalid(mem, d), z3.ULE(n, c.uf('strcap', [BV64, BV64], d)))
    c.oblige('%s: the result fits into its buffer' % what, 'deref', pc, And(Ne(d, bv(0)), dyn if d.get_id() in c.freshids else If(raw, dyn, cap)), None)
def put(c, mem, d, S):
    c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), d, S))
    if d.get_id() in c.freshids: c.setregion(mem, ('tag',), z3.Store(c.region(mem, ('tag',)), d, c.tagid('char')))
def x_strcpy(c, mem, pc, d, s):
    if root(c, d) is not d: raise Unsupported('strcpy into the middle of a string')
    c.oblige('strcpy: source is a valid string', 'pre', pc, And(Ne(s, bv(0)), c.strvalid(mem, s)), None)
    S = c.strof(mem, s, True); c.__dict__.setdefault('strlog', {})[S.get_id()] = S; room(c, mem, pc, d, c.slen(S), 'strcpy'); put(c, mem, d, S)
    for q, B, O in c.__dict__.get('toks', []):      # tokens cut out of the text written over show the new text
        rb = root(c, B)
        if rb is not d and c.distinct_fresh(rb, d): continue
        if rb is not B: raise Unsupported('strcpy over text that is being cut into tokens')
        old = c.select(c.region(mem, ('STR',)), q)
        from contract import decide
        inside = z3.ULE(O, c.slen(S)); e = decide(c, pc, Implies(Ne(q, bv(0)), inside))
        sh = c.suf(S, O) if e is True else z3.If(inside, c.suf(S, O), c.fresh('beyond', Str))
        c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), q, sh if B.eq(d) else z3.If(B == d, sh, old)))
    return d
def x_strcat(c, mem, pc, d, s):
    if root(c, d) is not d: raise Unsupported('strcat into the middle of a string')
    c.oblige('strcat: arguments are valid strings', 'pre', pc, And(c.strvalid(mem, d), Ne(s, bv(0)), c.strvalid(mem, s)), None)
    S = cat(c, c.strof(mem, d, True), c.strof(mem, s, True)); room(c, mem, pc, d, c.slen(S), 'strcat'); put(c, mem, d, S)
    return d
TOKC = {k.name: k for k in (xc('strtok', x_tok), xc('strcpy', x_strcpy), xc('strcat', x_strcat))}
def ghost_tok(c, mem, args):
    for g, so in (('tokrest', Str), ('tokbase', BV64), ('tokoff', BV64), ('toktext', Str)): c.ghost(mem, g, so)
    s = args[0]; c.axiom(z3.ULE(c.slen(c.strof(mem, s)), c.uf('strcap', [BV64, BV64], s)))
PO = dict(store_byte=cut_byte, contracts=TOKC)

# ---------------------------------------------------------------- contexts
def ctxspec(h, T):
    """(well formed, user, role, type, has range, range) of a context text"""
    h1, u, r1, _, _ = tk(h, T, b':'); h2, r, r2, _, _ = tk(h, r1, b':'); h3, t, r3, _, _ = tk(h, r2, b':'); h4, g, r4, _, _ = tk(h, r3, b':'); h5 = tk(h, r4, b':')[0]
    par = (b'(' in T) if h.concrete else h.haschr(T, b'(')
    return And(Not(par), h1, h2, h3, Not(And(h4, h5))), u, r, t, h4, g
def SC(h, r, f): return h.f(r, 'sel_context', f)
def SCS(h, r, f): return h.S(SC(h, r, f))
def sctx(h1, r, spec, gen=None):
    ok, u, ro, t, hr, g = spec
    return [('the user is the first field', lambda: Eq(SCS(h1, r, 'user'), u)), ('the role is the second field', lambda: Eq(SCS(h1, r, 'role'), ro)), ('the type is the third field', lambda: Eq(SCS(h1, r, 'type'), t))]
def thunk(c, f):
    if isinstance(c, bool): return f() if c else True
    return Implies(c, f())
def fresh_strs(h0, h1, r, st, fs):
    if h1.concrete: return True
    return And([Or(h1.f(r, st, f) == 0, And(h1.valid(h1.f(r, st, f), 'char'), h0.tag(h1.f(r, st, f)) == 0)) for f in fs])
def pc_post(h0, h1, r, s):
    T = h0.S(s)
    if not h0.concrete: h0.ctx.__dict__.setdefault('strlog', {})[T.get_id()] = T
    sp = ctxspec(h0, T); ok, u, ro, t, hr, g = sp; n = nz(r)
    if not h0.concrete: n = r != 0
    return [('accepted exactly when the text is a context', Iff(n, ok))] + [(lab, thunk(ok, f)) for lab, f in sctx(h1, r, sp)] + [
            ('the range is the fourth field, when there is one', thunk(ok, lambda: And(Iff(isz(SC(h1, r, 'range')), Not(hr)), thunk(hr, lambda: Eq(SCS(h1, r, 'range'), g))))),
            ('it is not marked as a gen_context', thunk(ok, lambda: isz(SC(h1, r, 'has_gen_context'))))] + ([] if h0.concrete else [
            ('a new object', Or(r == 0, And(h1.valid(r, 'sel_context'), h0.tag(r) == 0, z3.UGT(r, bv(1 << 32))))),
            ('its strings are new', thunk(ok, lambda: And(fresh_strs(h0, h1, r, 'sel_context', ('user', 'role', 'type', 'range')), SC(h1, r, 'user') != 0, SC(h1, r, 'role') != 0, SC(h1, r, 'type') != 0)))])
def ctxtext(w):
    r = w.rng; f = lambda: r.choice([b'u', b'system_u', b'object_r', b'r', b't', b'bin_t', b's0', b'$1_t', b''] if r.random() < .9 else [b'a(b', b'(', b' x'])
    return b':'.join(f() for i in range(r.choice([1, 2, 3, 3, 3, 3, 4, 4, 4, 5])))
SCMOD = [(('sel_context', f), 'fresh') for f in ('has_gen_context', 'user', 'role', 'type', 'range')] 
def strmod(h, s): return [(('STR',), 'fresh'), (('STR',), [root(h.ctx, s)])]
add(Contract('parse_context', pre=lambda h, s: [('a string', And(nz(s), h.valid(s, 'char')))], setup=ghost_tok, post=pc_post, opts=dict(PO), modifies=lambda h, s: SCMOD + strmod(h, s) + [(('tag',), 'fresh')],
    gen=lambda w: [w.str(ctxtext(w))]), 'P11')
for n in ('free_sel_context', 'free_fc_entry'): add(Contract(n, modifies=[], trusted=True, why='only releases memory'))
add(Contract('check_for_fc_macro', pre=lambda h, s, l: [('a line', And(nz(s), h.valid(s, 'char')))], value=lambda h, s, l: IsFcMacro(h, h.S(s), l), tails=[lambda h, p: IsFcMacro(h, h.S(h.ctx.root_args[0]), p)],
    gen=lambda w: [w.str(w.rng.choice([b'foo', b'foobar', b'fo', b'x']) + w.rng.choice([b'(', b'(a)', b'', b' (', b'b(', b'bar(x)\n'])), w.sl([w.rng.choice([b'foo', b'foobar', b'fo', b'']) for i in range(w.rng.randrange(4))])]), 'P11')
IsFcMacro = RecFn('IsFcMacro', [Str, BV64], BOOL, lambda h, s, l: If(isz(l), False, lambda: Or(And(h.startsw2(s, SV(h, l)), Eq(h.ch(s, h.slen(SV(h, l))), 40)), IsFcMacro(h, s, NX(h, l)))))

# ---------------------------------------------------------------- lines
def inset(h, c, cs): return Or([Eq(c, x) for x in cs])
def kz(h): return 0 if h.concrete else Z64
Paren = RecFn('Paren', [Str, BV64], BV64, lambda h, s, k: If(Or(Eq(h.ch(s, k), 0), Eq(h.ch(s, k), 41)), k, lambda: Paren(h, s, k + 1)))
SkipB = RecFn('SkipSpTab', [Str, BV64], BV64, lambda h, s, k: If(inset(h, h.ch(s, k), (32, 9)), lambda: SkipB(h, s, k + 1), lambda: k))
TrimE = RecFn('TrimEnd', [Str, BV64], BV64, lambda h, s, n: If(Eq(n, 0), n, lambda: If(inset(h, h.ch(s, n - 1), (32, 9, 13, 10)), lambda: TrimE(h, s, n - 1), lambda: n)))
def triml(h, s): return h.suf(s, SkipB(h, s, kz(h)))
def trime(h, s): return h.pre(s, TrimE(h, s, h.slen(s)))
def bit(c, a, b):
    if isinstance(c, bool): return (a() if callable(a) else a) if c else (b() if callable(b) else b)
    return z3.If(c, a() if callable(a) else a, b() if callable(b) else b)
def dec(h, q):
    """q, or its truth value where the path taken settles it"""
    if h.concrete or isinstance(q, bool) or not hasattr(h.ctx, 'exit_pc'): return q
    from contract import decide
    d = decide(h.ctx, h.ctx.exit_pc, q)
    return q if d is None else d
def slit(h, b): return b if h.concrete else h.lit(b)
def catl(h, *xs):
    if h.concrete: return b''.join(xs)
    r = xs[0]
    for x in xs[1:]: r = cat(h.ctx, r, x)
    return r
def can(h, X):
    """X, or the text examined by the code that is shown to equal it"""
    if h.concrete or not hasattr(h.ctx, 'exit_pc') or 'paths' not in h.ctx.opts: return X
    from contract import canon
    return canon(h.ctx, h.ctx.exit_pc, X)
def fcspec(h, T):
    """what a file-context line means"""
    W = b' \t'
    h1, path, r1, _, o1 = tk(h, T, W); h1 = dec(h, h1)
    N = dict(ok=False, path=path, obj=0, ctx=False, gen=False, user=0, role=0, type=0, hasrange=False, range=0)
    if h1 is False: return N
    h2, w2, r2, p2, o2 = tk(h, r1, W); h2 = dec(h, h2)
    if h2 is False: return N
    dash = dec(h, Eq(h.ch(w2), 45)); one = dec(h, And(Ne(h.ch(w2, 1), 0), Eq(h.ch(w2, 2), 0))) if dash is not False else False
    if dash is True and one is False: return N
    h3, p3 = False, 0
    if dash is not False:
        h3, w3, r3, p3, _ = tk(h, r2, W); h3 = dec(h, h3)
        if dash is True and h3 is False: return N
    off = bit(dash, lambda: o1 + o2 + p3, lambda: o1 + p2)
    ok0 = And(h1, h2, Or(Not(dash), And(one, h3)))
    X = can(h, trime(h, h.suf(T, off)))
    isg = dec(h, h.startsw(X, b'gen_context('))
    none = dec(h, Eq(X, slit(h, b'<<none>>'))) if isg is not True else False
    okg = g2 = g3 = False; ctxt = sens = cats = X
    if isg is not False:
        g1, c1, q1, _, _ = tk(h, h.suf(X, 12), b','); g1 = dec(h, g1)
        if isg is True and g1 is False: return N
        g2, c2, q2, _, _ = tk(h, q1, b','); g2 = dec(h, g2)
        P = lambda c: Paren(h, c, kz(h)); closed = lambda c: dec(h, Ne(h.ch(c, P(c)), 0))
        if g2 is not False:
            g3, c3, _, _, _ = tk(h, q2, b','); g3 = dec(h, g3)
            sens = can(h, triml(h, h.pre(c2, P(c2)))); cats = can(h, triml(h, h.pre(c3, P(c3)))) if g3 is not False else sens
        okg = And(g1, bit(g2, lambda: And(Or(closed(c2), g3), True if g3 is False else Or(Not(g3), closed(c3))), lambda: closed(c1)))
        ctxt = bit(g2, lambda: c1, lambda: can(h, h.pre(c1, P(c1))))
    V = (False, 0, 0, 0, False, 0)
    cg = ctxspec(h, ctxt) if isg is not False else V; cp = ctxspec(h, X) if isg is not True and none is not True else V
    ok = dec(h, And(ok0, Or(And(isg, okg, cg[0]), And(Not(isg), Or(none, cp[0])))))
    if ok is False: return N
    pick = lambda i: bit(isg, lambda: cg[i], lambda: cp[i])
    hasr = dec(h, bit(isg, lambda: g2, lambda: cp[4]))
    rng_ = bit(isg, lambda: bit(g3, lambda: catl(h, sens, slit(h, b':'), cats), lambda: sens), lambda: cp[5])
    return dict(ok=ok, path=path, obj=bit(dash, lambda: h.ch(w2, 1), 0 if h.concrete else bv(0, 8)), ctx=Or(isg, Not(none)), gen=isg, user=pick(1), role=pick(2), type=pick(3), hasrange=hasr, range=rng_)
def FE(h, r, f): return h.f(r, 'fc_entry', f)
def pl_post(h0, h1, r, s):
    S = fcspec(h0, h0.S(s)); ok = S['ok']; cx = lambda: FE(h1, r, 'context'); w = lambda f: thunk(And(ok, S['ctx']), f)
    return [('accepted exactly when the line is well formed', Iff(r != 0, ok)),
            ('the path is the first word', thunk(ok, lambda: Eq(h1.S(FE(h1, r, 'path')), S['path']))),
            ('the object class is the letter after the dash, or none', thunk(ok, lambda: Eq(FE(h1, r, 'obj'), S['obj']))),
            ('there is a context exactly when it is not <<none>>', thunk(ok, lambda: Iff(cx() != 0, S['ctx']))),
            ('gen_context is recognised', w(lambda: Iff(Ne(SC(h1, cx(), 'has_gen_context'), 0), S['gen']))),
            ('the user', w(lambda: Eq(SCS(h1, cx(), 'user'), S['user']))), ('the role', w(lambda: Eq(SCS(h1, cx(), 'role'), S['role']))), ('the type', w(lambda: Eq(SCS(h1, cx(), 'type'), S['type']))),
            ('a range is recorded exactly when one is given', w(lambda: Iff(Ne(SC(h1, cx(), 'range'), 0), S['hasrange']))),
            ('the range', thunk(And(ok, S['ctx'], S['hasrange']), lambda: Eq(SCS(h1, cx(), 'range'), S['range'])))] + ([] if h0.concrete else [
            ('a new entry', Or(r == 0, And(h1.valid(r, 'fc_entry'), h0.tag(r) == 0, FE(h1, r, 'path') != 0, h1.valid(FE(h1, r, 'path'), 'char'), Or(cx() == 0, h1.valid(cx(), 'sel_context')))))])
def indexed(L, n, ops=()):
    """the strings that the body of the loop indexes with its integer variable n"""
    fn = L.fr.fn; al = {n}; out = []
    for z in range(3 if ops else 1):
      for b in L.body:
        for I in fn.blocks[b]:
            if (I.op in ('sext', 'zext') or I.op in ops) and I.a[0].k == 'local' and I.a[0].v in al: al.add(I.res)
    for b in L.body:
        for I in fn.blocks[b]:
            if I.op == 'gep' and len(I.a) == 2 and I.a[1].k == 'local' and I.a[1].v in al and I.a[0].k == 'local':
                p = L.fr.env.get(I.a[0].v)
                if p is not None and not any(J.res == I.a[0].v for x in L.body for J in fn.blocks[x]) and not any(p.eq(q) for q in out): out.append(p)
    return out
def off_inv(F):
    """index loop over a string"""
    def f(h, A, L, i):
        if not (z3.is_bv(i) and i.size() in (32, 64)) or L.isptr(L.combo[0]): return None
        j = i if i.size() == 64 else z3.SignExt(32, i); out = []
        for p in indexed(L, L.combo[0]):
            T = Heap(h.ctx, L.mem0).S(p); out.append(And(z3.ULE(j, h.slen(T)), F(h, T, Z64) == F(h, T, j)))
        return And(out) if out else None
    return f
def cutend(h, A, L, n):
    """the end of the string is cut back to position n"""
    c = h.ctx
    if not (z3.is_bv(n) and n.size() == 64) or L.isptr(L.combo[0]): return None
    ps = indexed(L, L.combo[0], ('add', 'sub'))
    if len(ps) != 1: return None
    pos = ps[0]; bases = c.loopaddrs.get(L.key, {}).get(('STR',)) or [q for q, _, _ in c.__dict__.get('toks', [])]
    h0 = Heap(c, L.mem0); out = []
    for b in bases:
        X = h0.S(b); P = c.pre(X, n); c.pre(P, n - 1); c.ch(P, n - 1); c.ch(X, n - 1)
        out.append(If(pos == b, lambda: And(z3.ULE(n, c.slen(X)), h.S(b) == P, TrimE(h, X, c.slen(X)) == TrimE(h, X, n)), h.S(b) == X))
    return And(out) if out else None
def fcline(w):
    r = w.rng; ws = lambda: r.choice([b' ', b'\t', b'  ', b' \t']); osp = lambda: r.choice([b'', b'', b'', b' ', b'\t'])
    k = r.random()
    if k < .45:
        a = [r.choice([b's0', b'mls_systemhigh', b's0 - s1', b''])] if r.random() < .7 else []
        if a and r.random() < .5: a.append(r.choice([b'c0', b'mcs_allcats', b'c0.c3', b'x)']))
        c = b'gen_context(' + b','.join([ctxtext(w)] + [osp() + x for x in a]) + r.choice([b')', b')', b')', b'', b') # c', b'),a'])
    elif k < .6: c = r.choice([b'<<none>>', b'<<none>> x', b'<none>', b'<<none>>:a:b'])
    else: c = ctxtext(w)
    o = r.choice([b'', b'', b'--', b'-d', b'-l', b'-', b'-dd', b'-s ']) 
    return osp() + r.choice([b'/foo', b'/a(/.*)?', b'HOME_DIR', b'x']) + ws() + (o + ws() if o else b'') + c + r.choice([b'\n', b'\n', b'\r\n', b'', b' \n', b'\t'])
add(Contract('parse_fc_line', pre=lambda h, s: [('a string', And(nz(s), h.valid(s, 'char'))), ('shorter than 2^31 characters', ULT(h.slen(h.S(s)), 1 << 31))], setup=ghost_tok, post=pl_post, opts=dict(PO, frame_skip=(('STR',),), paths=[]), ptr_types=('char',),
    modifies=lambda h, s: SCMOD + [(('fc_entry', f), 'fresh') for f in ('path', 'obj', 'context')] + strmod(h, s) + [(('tag',), 'fresh')], gen=lambda w: [w.str(fcline(w))],
    inv=[('closing parenthesis by index', off_inv(Paren)), ('blanks', winv(SkipB)), ('closing parenthesis', winv(Paren)), ('trailing blanks', cutend)]), 'P11')

# ---------------------------------------------------------------- whole files
B32s = z3.BitVecSort(32)
FOPEN = z3.Const('file_can_be_opened', BOOL)
def fk(h): return h.ghost('fcline', BV64)
def ft(h, k): return h.uf('fc_linetext', [BV64, Str], k)
def fl_(h, k): return h.uf('fc_linelen', [BV64, BV64], k)
def fn_(h): return h.uf('fc_linecount', [BV64])
def fmac(h, T): return h.uf('fc_is_macro', [Str, BOOL], T)
def fok(h, T): return h.uf('fc_line_ok', [Str, BOOL], T)
def fent(h, p): return h.uf('fc_entry_of_line', [BV64, Str], p)
def ftail(h): return h.ghost('fctail', BV64)
def fhead(h): return h.ghost('fchead', BV64)
M4 = (b'ifdef', b'ifndef', b"')", b"', `", b"',`")
def fskip(h, k):
    T = ft(h, k)
    return Or([z3.ULE(fl_(h, k), bv(1)), h.ch(T) == 35, fmac(h, T)] + [h.startsw(T, p) for p in M4])
def fev(h, t, fl, txt, line): return h.uf('ev_fc_node', [Trace, B32s, Str, B32s, Trace], t, fl, txt, line)
FcT = RecFn('FcFileTrace', [Trace, BV64], Trace, lambda h, t, k: z3.If(z3.UGE(k, fn_(h)), t, z3.If(fskip(h, k), FcT(h, t, k + 1),
    FcT(h, fev(h, t, z3.If(fok(h, ft(h, k)), bv(h.E('NODE_FC_ENTRY'), 32), bv(h.E('NODE_ERROR'), 32)), z3.If(fok(h, ft(h, k)), ft(h, k), h.lit(b'')), z3.Extract(31, 0, k + 1)), k + 1))))
def y_getline(c, mem, pc, lp, np, fd):
    h = Heap(c, mem); k = fk(h); eof = z3.UGE(k, fn_(h))
    p = c.malloc(mem, None, pc, 'char')
    c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), p, ft(h, k)))
    c.axiom(Implies(z3.Not(eof), And(z3.ULE(h.slen(ft(h, k)), fl_(h, k)), fl_(h, k) != 0, z3.ULT(fl_(h, k), bv(1 << 31)))))
    c.store(mem, lp, p, None, pc, None, '', False)
    c.setregion(mem, ('ghost', 'fcline'), z3.If(eof, k, k + 1))
    return z3.If(eof, bv(-1), fl_(h, k))
def y_line(c, mem, pc, s):
    h = Heap(c, mem); T = h.S(s); p = c.malloc(mem, None, pc, 'fc_entry'); c.axiom(fent(h, p) == T)
    c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), s, c.fresh('cut_up', Str)))
    return z3.If(fok(h, T), p, bv(0))
def y_insert(c, mem, pc, prev, fl, data, line):
    h = Heap(c, mem)
    c.oblige('insert_policy_node_next: appends to the end of the list', 'pre', pc, And(Or(ftail(h) == 0, prev == ftail(h)), h.valid(prev, 'policy_node'), nxt(h, prev) == 0), None)
    c.setregion(mem, ('ghost', 'fchead'), z3.If(ftail(h) == 0, prev, fhead(h)))
    p = c.malloc(mem, None, pc, 'policy_node')
    for f, q, v in (('next', prev, p), ('next', p, bv(0))): c.setregion(mem, ('policy_node', f), z3.Store(c.region(mem, ('policy_node', f)), q, v))
    c.setregion(mem, ('ghost', 'fctail'), p)
    c.setregion(mem, ('ghost', 'trace'), fev(h, tr(h), fl, z3.If(data == 0, h.lit(b''), fent(h, data)), line))
    return bv(h.E('SELINT_SUCCESS'), 32)
strp = lambda h, s, *a: [('a string', And(nz(s), h.ctx.strvalid(h.mem, s)))]
YC = {k.name: k for k in (xc('fopen', lambda c, mem, pc, *a: z3.If(FOPEN, c.malloc(mem, None, pc, '_IO_FILE'), bv(0))), xc('getline', y_getline), xc('fclose', lambda c, mem, pc, f: bv(0, 32)),
    Contract('check_for_fc_macro', label='view', pre=strp, effects=lambda c, mem, pc, s, l: fmac(Heap(c, mem), Heap(c, mem).S(s)), trusted=True, why='whether a line matches a custom macro; what the function computes is established by its own contract'),
    Contract('parse_fc_line', label='view', pre=strp, effects=y_line, trusted=True, why='one entry per well-formed line; what the function computes is established by its own contract'),
    Contract('insert_policy_node_next', label='view', effects=y_insert, trusted=True, why='appends a node; the function itself is verified under property P09'),
    Contract('free_policy_node', modifies=[], trusted=True, why='only releases memory'))}
def pf_setup(c, mem, args):
    c.ghost(mem, 'fcline', BV64); c.ghost(mem, 'fctail', BV64); c.ghost(mem, 'fchead', BV64); c.ghost(mem, 'trace', Trace); c.axiom(c.ghost(mem, 'fctail', BV64) == 0)
    c.axiom(c.ghost(mem, 'fcline', BV64) == 0); c.axiom(z3.ULT(fn_(Heap(c, mem)), bv(1 << 32)))
def pf_post(h0, h1, r, path, macros):
    return [('fails exactly when the file cannot be read', Iff(nz(r), FOPEN)), ('the result is a file node', Implies(nz(r), isfl(h1, r, 'NODE_FC_FILE'))),
            ('every line is an entry, an error with its line number, or skipped, in order', Implies(nz(r), tr(h1) == FcT(h0, tr(h0), fk(h0)))),
            ('the nodes hang off the file node', Implies(nz(r), If(ftail(h1) == 0, tr(h1) == tr(h0), fhead(h1) == r)))]
def pf_tail(h, A, L, n):
    if n.size() == 32: return z3.ZeroExt(32, n) == fk(h)
    if n.size() == 64 and L.isptr(L.combo[0]): e = L.entry[L.combo[0]]; return And(If(ftail(h) == 0, And(n == e, tr(h) == tr(Heap(h.ctx, {}))), And(n == ftail(h), fhead(h) == e)), h.valid(n, 'policy_node'), nxt(h, n) == 0, n != 0)
    return None
def pf_case(con, nat, w):
    import tempfile, os, cx
    r = w.rng; ms = [r.choice([b'foo', b'foobar', b'fo']) for i in range(r.randrange(3))]
    def line():
        k = r.random()
        if k < .6: return fcline(w).rstrip(b'\r\n')
        if k < .7: return r.choice([b'#', b'# x', b'', b' ', b'\t'])
        if k < .85: return r.choice(M4) + r.choice([b'', b'(`a\'', b' x'])
        return r.choice([b'foo', b'foobar', b'fo', b'if', b"'", b"',"]) + r.choice([b'(', b'(a, b)', b'', b' ('])
    ls = [line() for i in range(r.randrange(6))]; text = b'\n'.join(ls) + (b'\n' if r.random() < .8 else b'')
    f = tempfile.NamedTemporaryFile(delete=False); f.write(text); f.close()
    try: root_ = nat.fn('parse_fc_file')(w.str(f.name.encode()), w.sl(ms))
    finally: os.unlink(f.name)
    h = cx.CHeap(w); E = w.prog.enums
    def bad(ob, e, a): return dict(obligation='parse_fc_file: ' + ob, expected=repr(e), actual=repr(a), input=dict(file=text.decode('latin1'), macros=[m.decode() for m in ms]))
    if not root_: return bad('fails exactly when the file cannot be read', 'a file node', 0)
    want = []
    for i, l in enumerate(text.split(b'\n')[:-1] + ([text.split(b'\n')[-1]] if text.split(b'\n')[-1] else [])):
        t = l + (b'\n' if i < text.count(b'\n') else b'')
        if len(t) <= 1 or t[:1] == b'#' or any(t.startswith(m) for m in M4) or any(t.startswith(m + b'(') for m in ms): continue
        s = fcspec(h, t); want.append((i + 1, 'entry ' + s['path'].decode('latin1') if s['ok'] else 'error'))
    got = []; n = nxt(h, root_)
    while n:
        fl = fl2 = h.f(n, 'policy_node', 'flavor'); got.append((h.f(n, 'policy_node', 'lineno'), 'entry ' + h.S(h.f(h.f(n, 'policy_node', 'data'), 'fc_entry', 'path')).decode('latin1') if fl == E['NODE_FC_ENTRY'] else 'error' if fl == E['NODE_ERROR'] else '?')); n = nxt(h, n)
    if got != want: return bad('every line is an entry, an error with its line number, or skipped, in order', want, got)
add(Contract('parse_fc_file', label='lines', pre=lambda h, p, m: [('a path', And(nz(p), h.valid(p, 'char')))], setup=pf_setup, post=pf_post, opts=dict(contracts=YC, noframe=True, nounroll_all=True), ptr_types=('policy_node', 'char'), case=pf_case,
    variants=[lambda h, A, v: fn_(h) - fk(h)], inv=[('position', pf_tail)], meminv=[('line number in range', lambda h, A, L: And(z3.ULE(fk(h), fn_(h)), z3.UGE(fk(h), fk(Heap(h.ctx, L.mem0)))))], tails=[lambda h: FcT(h, tr(h), fk(h))]), 'P11')
