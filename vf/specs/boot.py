"""startup.c: modules.conf loading and the propagation of the transform mark over interfaces"""
from specs.maps import *
import gen
SetT = z3.ArraySort(Str, BOOL)
def marks(h): return h.ghost('marks', SetT)
def ghost_marks(c, mem, args): c.ghost(mem, 'marks', SetT)
def put_mark(c, mem, pc, n):
    h = Heap(c, mem); c.setregion(mem, ('ghost', 'marks'), z3.Store(marks(h), h.S(n), TRUE))
WHYM = 'view of the table of marked interfaces as a set; the laws proved for this function under the same property establish it'
MK = dict(is_transform_if=Contract('is_transform_if', label='set', pre=str_ok1 if False else (lambda h, n: [('a string', And(nz(n), h.valid(n, 'char')))]), modifies=[], trusted=True, why=WHYM,
                                   post=lambda h0, h1, r, n: [('member', Iff(Ne(r, bv(0, 32)), marks(h0)[h0.S(n)]))]),
          mark_transform_if=Contract('mark_transform_if', label='set', pre=lambda h, n: [('a string', And(nz(n), h.valid(n, 'char')))], effects=put_mark, trusted=True, why=WHYM))
Body = RecFn('Body', [BV64], BV64, lambda h, n: If(And(nz(n), isfl(h, n, 'NODE_START_BLOCK', 'NODE_REQUIRE', 'NODE_GEN_REQ')), lambda: Body(h, nxt(h, n)), lambda: n))
def own(h, n): return h.S(ND(h, n))
def calls(h, n):
    """the interface definition n is wrapped around a call: first element of its body after require blocks"""
    b = lambda: Body(h, child(h, n))
    return And(isfl(h, n, 'NODE_INTERFACE_DEF'), lambda_and(lambda: And(nz(child(h, n)), lambda_and(lambda: And(nz(b()), lambda_and(lambda: isfl(h, b(), 'NODE_IF_CALL'), nz(b()))), nz(child(h, n)))), isfl(h, n, 'NODE_INTERFACE_DEF')))
def callee(h, n): return h.S(h.f(ND(h, Body(h, child(h, n))), 'if_call_data', 'name'))
def closed1(h, M, n): return Implies(And(calls(h, n), M[callee(h, n)]), M[own(h, n)])
CloF = RecFn('CloF', [SetT, BV64], BOOL, lambda h, M, n: If(isz(n), True, lambda: And(closed1(h, M, n), CloF(h, M, Next(h, n)))))
def fnext(h, f): return h.f(f, 'policy_file_node', 'next')
def fast(h, f): return h.f(h.f(f, 'policy_file_node', 'file'), 'policy_file', 'ast')
CloL = RecFn('CloL', [SetT, BV64], BOOL, lambda h, M, f: If(isz(f), True, lambda: And(CloF(h, M, fast(h, f)), CloL(h, M, fnext(h, f)))))
ANY = z3.Const('any_closed_set', SetT)
KEY = z3.Const('any_name', Str)
def sub(a, b):
    k = z3.Const('sub!k', Str); return z3.ForAll([k], z3.Implies(a[k], b[k]), patterns=[a[k]] if z3.is_const(a) else [b[k]] if z3.is_const(b) else [])
def m_posts(h0, h1, r, a, Clo, fr):
    M0, M1 = marks(h0), marks(h1)
    return [('no mark is lost', sub(M0, M1)),
            ('only interfaces that wrap a marked one become marked', Implies(And(sub(M0, ANY), Clo(h0, ANY, a)), sub(M1, ANY)))] + fr(M0, M1)
def inv_one(h, A, L, cur, mk):
    m0 = Heap(h.ctx, L.mem0); M0, M1 = marks(m0), marks(h)
    return Implies(mk == 0, And(M0 == M1, CloF(h, M0, A[0]) == CloF(h, M0, cur))) if mk.size() == 32 and cur.size() == 64 else None
E0 = lambda h: Heap(h.ctx, {}) 
def inv_any(h, A, L, cur):
    if cur.size() != 64: return None
    M0, M1 = marks(E0(h)), marks(h)
    return Implies(And(sub(M0, ANY), CloF(h, ANY, A[0])), And(sub(M1, ANY), CloF(h, ANY, cur)))
def inv_keep(h, A, L): return sub(marks(E0(h)), marks(h))
def inv_prog(h, A, L, mk):
    return Implies(mk != 0, marks(E0(h)) != marks(h)) if mk.size() == 32 else None
add(Contract('mark_transform_interfaces_one_file', optional=True, pre=lambda h, n: [('tree valid', Or(isz(n), h.valid(n, 'policy_node')))], setup=ghost_marks, opts=dict(contracts=MK), ptr_types=('policy_node',),
    modifies=[(('ghost', 'marks'), 'val')], case=lambda *x: b_case(*x),
    post=lambda h0, h1, r, n: m_posts(h0, h1, r, n, CloF, lambda M0, M1: [
        ('reports no change only when nothing is left to mark', Implies(r == 0, And(M0 == M1, CloF(h0, M0, n)))),
        ('reports a change only when there was one', Implies(r != 0, M0 != M1))]),
    tails=[lambda h, p: Body(h, p)], inv=[('unchanged so far', inv_one), ('within any closed set', inv_any), ('progress', inv_prog)], meminv=[('marks kept', inv_keep)]), 'P20')
def fw(h, l): return h.f(l, 'policy_file_list', 'head')
def m0(h, L): return marks(Heap(h.ctx, L.mem0))
def inv_pass(h, A, L, cur, mk):
    if mk.size() != 32 or cur.size() != 64: return None
    M0, M1 = m0(h, L), marks(h); hd = fw(E0(h), A[0])
    return Implies(mk == 0, And(M0 == M1, CloL(h, M0, hd) == CloL(h, M0, cur)))
def inv_pass2(h, A, L, mk):
    if mk.size() != 32: return None
    return Implies(mk != 0, m0(h, L) != marks(h))
def inv_lany(h, A, L, cur):
    if cur.size() != 64: return None
    return Implies(And(sub(marks(E0(h)), ANY), CloL(h, ANY, fw(E0(h), A[0]))), And(sub(marks(h), ANY), CloL(h, ANY, cur)))
def inv_lany0(h, A, L):
    return Implies(And(sub(marks(E0(h)), ANY), CloL(h, ANY, fw(E0(h), A[0]))), sub(marks(h), ANY))
def left(c, M): return c.uf('names_not_marked', [SetT, INTS], M)
def var_marks(h, A, v):
    c = h.ctx; M = marks(h); c.axiom(left(c, M) >= 0)
    for N in c.__dict__.setdefault('markterms', []):
        if not N.eq(M):
            c.axiom(Implies(And(sub(N, M), N != M), left(c, M) < left(c, N)))
    c.markterms.append(M); return left(c, M)
add(Contract('mark_transform_interfaces', pre=lambda h, l: [('files given', And(nz(l), h.valid(l, 'policy_file_list')))], setup=ghost_marks, opts=dict(contracts=MK), ptr_types=('policy_file_node',),
    modifies=[(('ghost', 'marks'), 'val')], case=lambda *x: b_case(*x),
    post=lambda h0, h1, r, l: m_posts(h0, h1, r, fw(h0, l), CloL, lambda M0, M1: [
        ('every interface that wraps a marked one is marked', CloL(h0, M1, fw(h0, l))), ('returns success', Eq(r, h0.E('SELINT_SUCCESS')))]),
    inv=[('pass unchanged so far', inv_pass), ('pass progress', inv_pass2), ('within any closed set', inv_lany)],
    meminv=[('marks kept', inv_keep), ('marks kept in this pass', lambda h, A, L: sub(m0(h, L), marks(h))), ('within any closed set so far', inv_lany0)], variants=[var_marks]), 'P20')

# ---------------------------------------------------------------- modules.conf
from specs.run import Trace, tr
from specs.ast import ev, evc
from specs.ifc import woff
def blank(h, c): return Or([Eq(c, x) for x in (32, 9, 10, 13)])
FNS = RecFn('SkipBlanks', [Str, BV64], BV64, lambda h, s, k: If(blank(h, h.ch(s, k)), lambda: FNS(h, s, k + 1), lambda: k))
FSP = RecFn('SkipWord', [Str, BV64], BV64, lambda h, s, k: If(Or(Eq(h.ch(s, k), 0), blank(h, h.ch(s, k))), k, lambda: FSP(h, s, k + 1)))
Z64 = bv(0)
def winv(F):
    def f(h, A, L, p):
        a = woff(L, L.combo[0], p)
        if a is None: return None
        e = L.entry[L.combo[0]]; c = h.ctx; w = c.walkinfo.get(L.hv[L.combo[0]].get_id())
        return F(h, h.S(a[0]), a[1]) == F(h, h.S(a[0]), z3.simplify(e - a[0]))
    return f
def cut_byte(c, mem, a, v, pc, line, who):
    """writing a NUL inside a string shortens it"""
    if not (isval(v) and v.as_long() == 0): raise Unsupported('byte store in abstract string mode (%s)' % who)
    base, off = c.origin.get(a.get_id(), (a, bv(0)))
    R = c.region(mem, ('STR',)); S = c.strof(mem, base)
    c.oblige('%s: the byte written is inside the string' % who, 'deref', pc, c.strvalid(mem, a), line)
    c.setregion(mem, ('STR',), z3.Store(R, base, c.pre(S, off)))
def word(h, T):
    a = FNS(h, T, Z64); return a, FSP(h, T, a)
def first_word(h, T):
    a, b = word(h, T); return h.pre(h.suf(T, a), b - a)
def strip_post(h0, h1, r, s):
    if h0.concrete:
        t = h0.S(s); b = t.lstrip(b' \t\r\n'); import re
        return [('the first blank-delimited word', h1.S(r) == re.split(rb'[ \t\r\n]', b)[0])]
    T = h0.S(s); a, b = word(h0, T)
    return [('returns the start of the first word', Eq(r, s + a)), ('ends the string after that word', h1.ctx.strof(h1.mem, s) == h0.pre(T, b)), ('stays inside the string', And(z3.ULE(a, b), z3.ULE(b, h0.slen(T))))]
add(Contract('strip_space', label='word', optional=True, pre=lambda h, s: [('a string', And(nz(s), h.valid(s, 'char')))], post=strip_post, modifies=lambda h, s: [(('STR',), [s])],
    opts=dict(store_byte=cut_byte), ptr_types=('char',), inv=[('blanks', winv(FNS)), ('word', winv(FSP))],
    gen=lambda w: [w.str(b''.join(w.rng.choice([b' ', b'\t', b'a', b'foo', b'\n', b'\r', b'\v', b'\f', b'=', b'b']) for i in range(w.rng.randrange(6))))]), 'P20')
def strip_eff(c, mem, pc, s):
    h = Heap(c, mem); T = h.S(s); a, b = word(h, T)
    c.axiom(And(z3.ULE(a, b), z3.ULE(b, h.slen(T))))
    base, off = c.origin.get(s.get_id(), (s, bv(0)))
    S = c.strof(mem, base); r = c.strptr(mem, base, off + a, pc)
    c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), base, c.pre(S, off + b)))
    # what the returned pointer now reads
    c.assume(TRUE, c.strof(mem, r) == h.pre(h.suf(T, a), b - a))
    return r
STRIP = Contract('strip_space', label='view', pre=lambda h, s: [('a string', And(nz(s), h.ctx.strvalid(h.mem, s)))], effects=strip_eff, trusted=True, why='effect of strip_space, established by its own contract')
def lineno(h): return h.ghost('line', INTS)
def tokrest(h): return h.ghost('tokrest', Str)
def ltext(h, k): return h.uf('linetext', [INTS, Str], k)
def llen(h, k): return h.uf('linelen', [INTS, BV64], k)
def lcount(h): return h.uf('linecount', [INTS])
OPENED = z3.Const('file_can_be_opened', BOOL)
def x_fopen(c, mem, pc, *a):
    p = c.malloc(mem, None, pc, '_IO_FILE'); return z3.If(OPENED, p, bv(0))
def x_getline(c, mem, pc, lp, np, fd):
    h = Heap(c, mem); k = lineno(h); eof = k >= lcount(h)
    p = c.malloc(mem, None, pc, 'char')
    c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), p, ltext(h, k)))
    c.axiom(Implies(z3.Not(eof), And(z3.ULE(h.slen(ltext(h, k)), llen(h, k)), llen(h, k) != 0, z3.ULT(llen(h, k), bv(1 << 40)))))
    c.store(mem, lp, p, None, pc, None, '', False)
    c.setregion(mem, ('ghost', 'line'), z3.If(eof, k, k + 1))
    return z3.If(eof, bv(-1), llen(h, k))
def tok(h, R):
    """(is there a token, the token, what is left) of text R with separator '='"""
    sp = h.uf('span_eq', [Str, BV64], R); r = h.suf(R, sp)
    has_ = h.haschr(r, b'='); k = h.idxchr(r, b'=')
    return h.slen(r) != 0, z3.If(has_, h.pre(r, k), r), z3.If(has_, h.suf(r, k + 1), h.lit(b''))
def x_strtok(c, mem, pc, s, delim):
    h = Heap(c, mem)
    c.oblige('strtok: separator is =', 'pre', pc, Eq(h.S(delim), h.lit(b'=')), None)
    if isval(s) and s.as_long() == 0: R = tokrest(h)
    else:
        c.oblige('strtok: argument is a valid string', 'pre', pc, And(Ne(s, bv(0)), c.strvalid(mem, s)), None)
        R = h.S(s); base, off = c.origin.get(s.get_id(), (s, bv(0)))
        if isval(base): raise Unsupported('strtok on a literal')
        c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), base, c.fresh('cut_up', Str)))
    have, t, rest_ = tok(h, R)
    p = c.malloc(mem, None, pc, 'char')
    c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), p, t))
    c.setregion(mem, ('ghost', 'tokrest'), rest_)
    return z3.If(have, p, bv(0))
LIBC = 'libc: reads the file line by line / splits a line at a separator'
def xc(n, eff): return Contract(n, label='libc', external=True, effects=eff, trusted=True, why=LIBC)
def skipline(h, k):
    t = ltext(h, k); f = FNS(h, t, Z64); c1 = h.ch(t, f)
    h.ctx.axiom(Implies(Not(blank(h, h.ch(t, 0))), And(f == 0, c1 == h.ch(t, 0))))     # unfolds the definition once
    return Or(z3.ULE(llen(h, k), bv(1)), c1 == 35, c1 == 0)
def lsplit(h, k):
    h1, t1, r1 = tok(h, ltext(h, k)); h2, t2, r2 = tok(h, r1); h3, t3, r3 = tok(h, r2)
    return And(h1, h2, Not(h3)), first_word(h, t1), first_word(h, t2)
LMr = RecFn('ConfOk', [INTS], BOOL, lambda h, k: z3.If(k >= lcount(h), TRUE, z3.If(skipline(h, k), LMr(h, k + 1), And(lsplit(h, k)[0], LMr(h, k + 1)))))
LMt = RecFn('ConfTrace', [Trace, INTS], Trace, lambda h, t, k: z3.If(k >= lcount(h), t, z3.If(skipline(h, k), LMt(h, t, k + 1), LMt(h, ev(h, 'module', t, *lsplit(h, k)[1:]), k + 1))))
def conf_setup(c, mem, args):
    for g, so in (('line', INTS), ('tokrest', Str), ('trace', Trace)): c.ghost(mem, g, so)
    c.axiom(c.ghost(mem, 'line', INTS) == 0); c.axiom(lcount(Heap(c, mem)) >= 0)
def conf_post(h0, h1, r, path):
    k = lineno(h0); E = h0.E
    return [('fails with an I/O error exactly when the file cannot be opened', Iff(r == E('SELINT_IO_ERROR'), Not(OPENED))),
            ('fails exactly when some line is not of the form name = status', Implies(OPENED, And(Iff(r == E('SELINT_SUCCESS'), LMr(h0, k)), Iff(r == E('SELINT_PARSE_ERROR'), Not(LMr(h0, k)))))),
            ('records every module with its status, in file order, and nothing else', Implies(r == E('SELINT_SUCCESS'), tr(h1) == LMt(h0, tr(h0), k)))]
CONF = {k.name: k for k in (xc('fopen', x_fopen), xc('getline', x_getline), xc('strtok', x_strtok), xc('fclose', lambda c, mem, pc, f: bv(0, 32)), STRIP,
        evc('insert_into_mods_map', 'module', lambda h, n, m: (h.S(n), h.S(m)), ()))}
CONF['insert_into_mods_map'].pre = lambda h, n, m: [('strings are valid', And(nz(n), nz(m), h.ctx.strvalid(h.mem, n), h.ctx.strvalid(h.mem, m)))]
add(Contract('load_modules_source', label='conf', pre=lambda h, p: [('a path', And(nz(p), h.valid(p, 'char')))], setup=conf_setup, post=conf_post, opts=dict(contracts=CONF, store_byte=cut_byte, noframe=True), ptr_types=('char',), case=lambda *x: conf_case(*x),
    variants=[lambda h, A, v: lcount(h) - lineno(h)], inv=[('blanks', winv(FNS)), ('word', winv(FSP))], meminv=[('line number in range', lambda h, A, L: And(lineno(h) >= 0, lineno(h) <= lcount(h)))],
    tails=[lambda h: LMr(h, lineno(h)), lambda h: LMt(h, tr(h), lineno(h))]), 'P20')

# ---------------------------------------------------------------- concrete counterparts
import tempfile, os, re
def conf_case(con, nat, w):
    r = w.rng; nat.fn('free_all_maps')()
    names = [b'foo', b'bar', b'b', b'apache', b'x_y']
    ls = []
    for i in range(r.randrange(0, 6)):
        sp = lambda: r.choice([b'', b'', b' ', b'\t', b'  ', b' \t ', b'\r'])
        k = r.random()
        if k < .6: l = sp() + r.choice(names) + sp() + b'=' + sp() + r.choice([b'base', b'module', b'off', b'module x', b'']) + sp()
        elif k < .7: l = sp() + b'#' + r.choice([b'', b' x = y', b'a=b=c'])
        elif k < .8: l = sp()
        else: l = b''.join(r.choice([b'=', b'a', b' ', b'b', b'#', b'=c', b'\t', b'longer_name']) for i in range(r.randrange(1, 6)))
        ls.append(l)
    text = b'\n'.join(ls) + (b'\n' if ls and r.random() < .7 else b'')
    f = tempfile.NamedTemporaryFile(delete=False); f.write(text); f.close()
    try: rc = nat.fn('load_modules_source')(w.str(f.name.encode()))
    finally: os.unlink(f.name)
    E = w.prog.enums; tab = {}; want = E['SELINT_SUCCESS']
    fw_ = lambda t: re.split(rb'[ \t\r\n]', t.lstrip(b' \t\r\n'))[0]
    for l in [x + b'\n' for x in text.split(b'\n')[:-1]] + ([text.split(b'\n')[-1]] if text.split(b'\n')[-1] else []):
        b = l.lstrip(b' \t\r\n')
        if len(l) <= 1 or not b or b[:1] == b'#': continue
        ts = [t for t in l.split(b'=') if t]
        if len(ts) != 2: want = E['SELINT_PARSE_ERROR']; break
        tab.setdefault(fw_(ts[0]), fw_(ts[1]))
    def bad(ob, e, a): return dict(obligation='load_modules_source: ' + ob, expected=repr(e), actual=repr(a), input=dict(file=text.decode('latin1')))
    if rc != want: return bad('fails exactly when some line is not of the form name = status', want, rc)
    if rc == E['SELINT_SUCCESS']:
        for n in sorted(set(names) | set(tab)):
            p = nat.fn('look_up_in_mods_map')(w.str(n)); g = ctypes_str(p) if p else None
            if g != tab.get(n): return bad('records every module with its status: %s' % n.decode('latin1'), tab.get(n), g)
def b_case(con, nat, w):
    r = w.rng; nat.fn('free_all_maps')()
    names = [b'i%d' % i for i in range(8)]; E = w.prog.enums; marked = set(); files = []; rel = []
    for n in names:
        if r.random() < .2: nat.fn('mark_transform_if')(w.str(n)); marked.add(n)
    brief = []
    for f in range(1 if con.name.endswith('one_file') else r.randrange(1, 4)):
        root = w.node('NODE_IF_FILE', lineno=1); top = []; rl = []
        for i in range(r.randrange(0, 5)):
            nm = r.choice(names); fl = r.choice(['NODE_INTERFACE_DEF'] * 5 + ['NODE_TEMP_DEF'])
            d = w.node(fl, data=w.str(nm), lineno=i); kids = []; first = None; desc = []
            for k in range(r.randrange(0, 4)):
                kf = r.choice(['NODE_START_BLOCK', 'NODE_REQUIRE', 'NODE_GEN_REQ', 'NODE_IF_CALL', 'NODE_IF_CALL', 'NODE_IF_CALL', 'NODE_DECL'])
                if k == 0 and r.random() < .7: kf = 'NODE_START_BLOCK'
                cn = r.choice(names)
                data = 0
                if kf == 'NODE_IF_CALL': data = w.obj('if_call_data', name=cn, args=0)
                elif kf == 'NODE_DECL': data = w.obj('declaration_data', flavor=E['DECL_TYPE'], name=b't', attrs=0)
                elif kf == 'NODE_GEN_REQ': data = w.obj('gen_require_data', unquoted=0)
                kids.append(w.node(kf, data=data, lineno=i)); desc.append(kf[5:] + (' ' + cn.decode() if kf == 'NODE_IF_CALL' else ''))
                if first is None and kf not in ('NODE_START_BLOCK', 'NODE_REQUIRE', 'NODE_GEN_REQ'): first = (kf, cn)
            w.adopt(d, kids); top.append(d); brief.append('file %d: %s %s { %s }' % (f, fl[5:], nm.decode(), '; '.join(desc)))
            if fl == 'NODE_INTERFACE_DEF' and first and first[0] == 'NODE_IF_CALL': rl.append((nm, first[1]))
        if r.random() < .3 and top:
            bl = w.node('NODE_IFDEF', lineno=9); w.adopt(bl, top); top = [bl]
        w.adopt(root, top); files.append(root); rel.append(rl)
    m0 = sorted(x.decode() for x in marked)
    got = lambda: {n for n in names if nat.fn('is_transform_if')(w.str(n))}
    def clos(M, rl):
        M = set(M)
        while True:
            N = M | {a for a, b in rl if b in M}
            if N == M: return M
            M = N
    def bad(ob, e, a): return dict(obligation='%s: %s' % (con.name, ob), expected=repr(e), actual=repr(a), input=dict(interfaces=brief, marked_before=m0))
    allr = sum(rel, [])
    if con.name.endswith('one_file'):
        rc = nat.fn(con.name)(files[0]); g = got()
        if not marked <= g: return bad('no mark is lost', sorted(marked), sorted(g))
        if not g <= clos(marked, allr): return bad('only interfaces that wrap a marked one become marked', sorted(clos(marked, allr)), sorted(g))
        if not rc and (g != marked or clos(marked, allr) != marked): return bad('reports no change only when nothing is left to mark', 1, rc)
        if rc and g == marked: return bad('reports a change only when there was one', 0, rc)
        return
    nx = 0; nodes = []
    for a in reversed(files):
        nx = w.obj('policy_file_node', file=w.obj('policy_file', filename=b'f.if', ast=a), next=nx); nodes.append(nx)
    rc = nat.fn(con.name)(w.obj('policy_file_list', head=nx, tail=nodes[0])); g = got(); x = clos(marked, allr)
    if not marked <= g: return bad('no mark is lost', sorted(marked), sorted(g))
    if not g <= x: return bad('only interfaces that wrap a marked one become marked', sorted(x), sorted(g))
    if g != x: return bad('every interface that wraps a marked one is marked', sorted(x), sorted(g))
    if rc != E['SELINT_SUCCESS']: return bad('returns success', 0, rc)
