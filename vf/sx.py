"""Verification-condition generator: symbolic execution of extracted IR with
state merging, loop cutting at headers (Houdini over candidate invariants),
modular calls through contracts, Burstall-style field heap."""
import z3, time, os, itertools
from irx import *

BV64 = z3.BitVecSort(64)
Str = z3.DeclareSort('Str')
TagS = z3.BitVecSort(8)

class Unsupported(Exception):
    pass

def bv(v, n=64): return z3.BitVecVal(v & ((1 << n) - 1), n)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
def is_t(e): return z3.is_true(e)
def is_f(e): return z3.is_false(e)

def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    if any(x is False for x in xs): return False
    if all(isinstance(x, bool) for x in xs): return all(xs)
    out = []; seen = set()
    for x in xs:
        if x is True: continue
        if is_f(x): return FALSE
        if is_t(x): continue
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x)
    if not out: return TRUE
    return out[0] if len(out) == 1 else z3.And(out)
def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    if any(x is True for x in xs): return True
    if all(isinstance(x, bool) for x in xs): return any(xs)
    out = []; seen = set()
    for x in xs:
        if x is False: continue
        if is_t(x): return TRUE
        if is_f(x): continue
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x)
    if not out: return FALSE
    return out[0] if len(out) == 1 else z3.Or(out)
def Not(x):
    if isinstance(x, bool): return not x
    if is_t(x): return FALSE
    if is_f(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b):
    return Or(Not(a), b)
def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    return a == b
def Ite(c, a, b):
    """c may be python bool; a,b may be thunks"""
    if isinstance(c, bool):
        x = a if c else b
        return x() if callable(x) else x
    if is_t(c): return a() if callable(a) else a
    if is_f(c): return b() if callable(b) else b
    if callable(a): a = a()
    if callable(b): b = b()
    if a is b: return a
    if isinstance(a, bool): a = z3.BoolVal(a)
    if isinstance(b, bool): b = z3.BoolVal(b)
    if z3.is_expr(a) and not z3.is_expr(b): b = z3.BitVecVal(b, a.size()) if z3.is_bv(a) else z3.IntVal(b)
    if z3.is_expr(b) and not z3.is_expr(a): a = z3.BitVecVal(a, b.size()) if z3.is_bv(b) else z3.IntVal(a)
    if not z3.is_expr(a) and not z3.is_expr(b): a, b = z3.IntVal(a), z3.IntVal(b)
    if a.eq(b): return a
    return z3.If(c, a, b)
If = Ite
def Eq(a, b):
    if not z3.is_expr(a) and not z3.is_expr(b): return a == b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return TRUE
    if z3.is_expr(a) and z3.is_bv_value(a) and z3.is_expr(b) and z3.is_bv_value(b):
        return TRUE if a.as_long() == b.as_long() else FALSE
    return a == b
def Ne(a, b): return Not(Eq(a, b))

def isval(e): return z3.is_bv_value(e) or is_t(e) or is_f(e)
def fold(e, *ops):
    if all(isval(o) for o in ops): return z3.simplify(e)
    return e

class Edge:
    __slots__ = ('pc', 'mem', 'phis', 'src')
    def __init__(s, pc, mem, phis=None, src=None): s.pc, s.mem, s.phis, s.src = pc, mem, phis or {}, src

class Obl:
    __slots__ = ('name', 'kind', 'pc', 'goal', 'nfacts', 'line', 'hk', 'status', 'time', 'detail', 'backend', 'nd')
    def __init__(s, name, kind, pc, goal, nfacts, line, hk=None):
        s.name, s.kind, s.pc, s.goal, s.nfacts, s.line, s.hk = name, kind, pc, goal, nfacts, line, hk
        s.status = None; s.time = 0; s.detail = ''; s.backend = ''

class RecFn:
    """recursive specification function over the heap; unfolded on demand"""
    registry = {}
    def __init__(s, name, argsorts, ret, body, fuel=2, post=None):
        s.name, s.argsorts, s.ret, s.body, s.fuel, s.post = name, argsorts, ret, body, fuel, post
        s.reads = None; s.uf = None
        RecFn.registry[name] = s
    def infer(s, ctx):
        s.reads = []; s._inferring = True
        rec = ctx.readlog; ctx.readlog = set(); q = ctx.suspend; ctx.suspend = True
        dummies = [z3.Const('%s!d%d' % (s.name, i), so) for i, so in enumerate(s.argsorts)]
        s.body(ctx.h0, *dummies)
        got = sorted(ctx.readlog, key=str)
        ctx.readlog = rec; ctx.suspend = q
        s._inferring = False
        s.reads = [r for r in got]
    def __call__(s, h, *args):
        if getattr(h, 'concrete', False): return s.body(h, *args)
        ctx = h.ctx
        if ctx.recreads.get(s.name) is None:
            if s.name in ctx.inferring:
                return z3.FreshConst(s.ret, 'inf')
            ctx.inferring.add(s.name)
            rec = ctx.readlog; ctx.readlog = set(); q = ctx.suspend; ctx.suspend = True
            dummies = [z3.Const('%s!d%d' % (s.name, i), so) for i, so in enumerate(s.argsorts)]
            s.body(ctx.h0, *dummies)
            ctx.recreads[s.name] = sorted(ctx.readlog, key=str)
            ctx.readlog = rec; ctx.suspend = q; ctx.inferring.discard(s.name)
        reads = ctx.recreads[s.name]
        if ctx.readlog is not None: ctx.readlog |= set(reads)
        arrs = [h.region(r) for r in reads]
        if not ctx.suspend and h is not ctx.h0:
            inits = [ctx.region({}, r) for r in reads]
            if any(not a.eq(i) for a, i in zip(arrs, inits)) and all(a.sort().domain() == BV64 and ctx.init_framed(a, i) if z3.is_array(a) else a.eq(i) for a, i in zip(arrs, inits)):
                cargs = [ctx.coerce(a, so) for a, so in zip(args, s.argsorts)]
                ptr = [a for a in cargs if a.sort() == BV64 and not (isval(a) and a.as_long() == 0)]
                frame_lemma = (ptr, s(ctx.h0, *cargs))
            else: frame_lemma = None
        else: frame_lemma = None
        uf = ctx.ufs.get(s.name)
        if uf is None:
            uf = ctx.ufs[s.name] = z3.Function(s.name, *([x for x in s.argsorts] + [a.sort() for a in arrs] + [s.ret]))
        args = [ctx.coerce(a, so) for a, so in zip(args, s.argsorts)]
        app = uf(*(args + arrs))
        if frame_lemma:
            ctx.axiom(Implies(And([Or(p == 0, ctx.tag0(p) != 0) for p in frame_lemma[0]]), app == frame_lemma[1]))
        if ctx.opts.get('persist') and not ctx.suspend and h is not ctx.h0 and ('ps', app.get_id()) not in ctx.framedmemo:
            ctx.framedmemo['ps', app.get_id()] = True; ctx.keep.append(app)
            ptr = [a for a in args if a.sort() == BV64 and not (isval(a) and a.as_long() == 0)]
            for T, older_ in ctx.earlier(h, reads, arrs):
                ctx.axiom(Implies(And([Or(p == 0, ctx.select(T, p) != 0) for p in ptr]), app == s(older_, *args)))
        if not ctx.suspend and app.get_id() not in ctx.recdone:
            lvl = ctx.reclevel
            if lvl < s.fuel + ctx.extra_fuel:
                ctx.recdone[app.get_id()] = app
                ctx.reclevel = lvl + 1
                b = s.body(h, *args)
                ctx.reclevel = lvl
                if isinstance(b, bool): b = z3.BoolVal(b)
                if not z3.is_expr(b): b = ctx.coerce(b, s.ret)
                ctx.axiom(app == b)
                if s.post:
                    for f in s.post(h, app, *args): ctx.axiom(f)
        return app

class Heap:
    """view of a memory state for specifications"""
    concrete = False
    def __init__(s, ctx, mem): s.ctx, s.mem = ctx, mem
    def region(s, r): return s.ctx.region(s.mem, r)
    def f(s, p, st, fld):
        """field read p->fld"""
        c = s.ctx; p = c.coerce(p, BV64)
        return c.read_field(s.mem, p, st, fld)
    def fidx(s, p, st, fld, i):
        """element i of the array field p->fld"""
        c = s.ctx; p = c.coerce(p, BV64)
        di, o = [(d, o) for n, d, o in c.prog.structs[st] if n == fld][0]
        import cx
        k = cx.size_of(di[1])
        if not z3.is_expr(i): i = bv(i)
        if i.size() < 64: i = z3.ZeroExt(64 - i.size(), i)
        r = c.rname(st, fld); a = z3.simplify(p + bv(o) + i * k)
        if c.wf is not None and not c.suspend:
            for f in c.wf(c, c.h0, p, st, fld, c.region({}, r)[a]): c.axiom(Implies(c.valid({}, p, st), f))
        return c.select(s.region(r), a)
    def arrlen(s, st, fld): return [d for n, d, o in s.ctx.prog.structs[st] if n == fld][0][2]
    def S(s, p):
        c = s.ctx; p = c.coerce(p, BV64)
        return c.strof(s.mem, p)
    def g(s, name, file=None): return s.ctx.read_global(s.mem, name, file)
    def deref(s, p, ty): return s.ctx.load(s.mem, p, ty)
    def ghost(s, name, sort): return s.ctx.ghost(s.mem, name, sort)
    def lit(s, b): return s.ctx.lit(b)
    def E(s, n): return s.ctx.prog.enums[n]
    def tag(s, p): return s.ctx.region(s.mem, ('tag',))[p]
    def valid(s, p, st):
        if st == 'char': return s.ctx.strvalid(s.mem, s.ctx.coerce(p, BV64))
        return s.ctx.valid(s.mem, s.ctx.coerce(p, BV64), st)
    # strings
    def slen(s, x): return s.ctx.slen(x)
    def pre(s, x, n): return s.ctx.pre(x, n)
    def suf(s, x, n): return s.ctx.suf(x, n)
    def has(s, x, y): return s.ctx.has(x, y)
    def ch(s, x, i=0): return s.ctx.ch(x, i)
    def endsw(s, x, lit): return s.ctx.endsw(x, lit)
    def startsw(s, x, lit): return Eq(s.ctx.pre(x, len(lit)), s.ctx.lit(lit))
    def startsw2(s, x, y): return Eq(s.ctx.pre(x, s.ctx.slen(y)), y)
    def slt(s, x, y): return s.ctx.slt(x, y)
    def uf(s, name, sorts, *args): return s.ctx.uf(name, sorts, *args)
    def haschr(s, x, b): return s.ctx.uf('haschr', [Str, z3.BitVecSort(8), z3.BoolSort()], x, bv(b[0], 8))
    def idxchr(s, x, b): return s.ctx.uf('idxchr', [Str, z3.BitVecSort(8), BV64], x, bv(b[0], 8))
    def ridxchr(s, x, b): return s.ctx.uf('ridxchr', [Str, z3.BitVecSort(8), BV64], x, bv(b[0], 8))

class Ctx:
    def __init__(s, prog, contracts, opts=None):
        s.chosen = []; s.inloop = 0; s.loopat = {}     # path mode: decisions taken so far, loop nesting
        s.prog, s.contracts, s.opts = prog, contracts, opts or {}
        s.facts, s.obls, s.prov, s.keep = [], [], {}, []
        s.axioms = []; s.axseen = set()
        s.ufs, s.recreads, s.inferring, s.recdone = {}, {}, set(), {}
        s.readlog = None; s.suspend = False; s.reclevel = 0; s.extra_fuel = s.opts.get('extra_fuel', 0)
        s.writelog = None; s.addrlog = None; s.loopaddrs = {}
        s.lits, s.litaddr, s.gaddr = {}, {}, {}
        s.nextaddr = 0x100000
        s.regsort = {}; s.init = {}
        s.cnt = itertools.count(); s.freshat = {}
        s.mem0 = {}
        s.h0 = Heap(s, s.mem0)
        s.tags = {}
        s.wf = s.opts.get('wf')            # callable(ctx,h,p,st,fld,val)->list of facts
        s.loopinv = s.opts.get('loopinv', {})   # key -> set of dropped candidate names
        s.cands = {}
        s.houdini_pass = True
        s.unroll_bound = s.opts.get('unroll_bound')   # bounded mode
        s.wfdone = set()
        s.callstack = []
        s.covered = set()
        s.externs_used = set(); s.contracts_used = set(); s.inlined = set()
        s.litprops_done = set()
        s.strterms = {}
        s.memcheck = s.opts.get('memcheck', True)
        s.snaps = {}; s.freshobjs = []; s.freshids = set(); s.oldids = set(); s.selmemo = {}; s.leafmemo = {}; s.frames = {}; s.origin = {}; s.walkers = set(); s.walkinfo = {}; s.nullcond = {}; s.touched = set(); s.framedmemo = {}
        s.max_depth = 0; s.fab = {}; s.charat = {}; s.charseen = set()
    # ---------------------------------------------------------------- basics
    def fresh(s, name, sort):
        k = next(s.cnt); n = '%s!%d' % (name, k); s.freshat[n] = k
        return z3.Const(n, sort)
    def axiom(s, f):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if is_t(f) or s.suspend: return
        if f.get_id() in s.axseen: return
        s.axseen.add(f.get_id()); s.axioms.append(f)
    def assume(s, pc, f):
        f = Implies(pc, f)
        if isinstance(f, bool): f = z3.BoolVal(f)
        if not is_t(f): s.facts.append(f)
    def oblige(s, name, kind, pc, goal, line=None, hk=None, then_assume=True):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if s.suspend: return
        o = Obl(name, kind, pc, goal, len(s.facts), line, hk); o.nd = len(s.chosen)
        s.obls.append(o)
        if is_t(goal): o.status = 'trivial'
        elif then_assume: s.assume(pc, goal)
    def coerce(s, v, sort):
        if z3.is_expr(v):
            if sort == z3.BoolSort() and z3.is_bv(v): return v != 0
            return v
        if isinstance(v, bool):
            if sort == z3.BoolSort(): return z3.BoolVal(v)
            return bv(int(v), sort.size())
        if isinstance(v, bytes): return s.lit(v)
        if sort == z3.IntSort(): return z3.IntVal(v)
        return bv(v, sort.size())
    # ---------------------------------------------------------------- layout
    def sizeof(s, mod, t): return s.layout(mod, t)[0]
    def layout(s, mod, t):
        if t.k == 'int': n = (t.n + 7) // 8; return n, n
        if t.k == 'ptr' or t.k == 'double': return 8, 8
        if t.k == 'float': return 4, 4
        if t.k == 'fp80': return 16, 16
        if t.k == 'array':
            a, b = s.layout(mod, t.el); return a * t.n, b
        if t.k == 'struct':
            els = t.el
            if els is None:
                d = s.prog.type(mod, t.name)
                if d is None: raise Unsupported('type ' + str(t.name))
                els = d.el
            off, al = 0, 1
            for e in els:
                sz, a = s.layout(mod, e); off = (off + a - 1) // a * a + sz; al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported('layout %r' % t)
    def offset(s, mod, t, idx):
        els = t.el if t.el is not None else s.prog.type(mod, t.name).el
        off = 0
        for i, e in enumerate(els):
            sz, a = s.layout(mod, e); off = (off + a - 1) // a * a
            if i == idx: return off, e
            off += sz
        raise Unsupported('offset')
    def fieldname(s, st, idx, off):
        fl = s.prog.structs.get(st)
        if fl:
            for n, _, o in fl:
                if o == off: return n
        return '#%d' % idx
    # ---------------------------------------------------------------- regions
    ALIAS = {}
    def rname(s, st, fld):
        if st == 'xav_rule_data' and fld in ('flavor', 'sources', 'targets', 'object_classes', 'perms'):
            st = 'av_rule_data'
        return (st, fld)
    def field_bits(s, st, fld):
        for m in s.prog.mods.values():
            for pre in ('struct.', 'union.'):
                if pre + st in m.types:
                    t = m.types[pre + st]; i = 0
                    for n, di, o in s.prog.structs[st]:
                        for idx, e in enumerate(t.el):
                            oo, ee = s.offset(m, t, idx)
                            if oo == o and n == fld:
                                return s.bits(ee)
        raise Unsupported('field %s.%s' % (st, fld))
    def bits(s, t):
        if t.k == 'int': return t.n if t.n > 1 else 8
        if t.k in ('ptr', 'double'): return 64
        if t.k == 'float': return 32
        if t.k == 'struct': 
            if t.name and t.name.startswith('union.'): return 64
        if t.k == 'array': return s.bits(t.el)
        raise Unsupported('bits %r' % t)
    def region(s, mem, r):
        if s.readlog is not None: s.readlog.add(r)
        v = mem.get(r)
        if v is None:
            v = s.init.get(r)
            if v is None:
                so = s.region_sort(r)
                v = s.init[r] = z3.Const('M0:' + ':'.join(map(str, r)), so)
            # not stored in mem: absent == initial
        return v
    def region_sort(s, r):
        if r in s.regsort: return s.regsort[r]
        if r == ('tag',): so = z3.ArraySort(BV64, TagS)
        elif r == ('STR',): so = z3.ArraySort(BV64, Str)
        elif r[0] == 'bytes': so = z3.ArraySort(BV64, z3.BitVecSort(8))
        elif r[0] == 'size': so = z3.ArraySort(BV64, BV64)
        elif r[0] == 'cell': so = z3.ArraySort(BV64, z3.BitVecSort(r[1]))
        elif r[0] == 'g' and '.' in r[1]: return s.regsort[s.global_region(r[1].rsplit('.', 1)[1], r[1].rsplit('.', 1)[0] or None)]
        elif r[0] in ('g', 'ga', 'a', 'aa'): raise Unsupported('region sort %s' % (r,))
        elif r[0] == 'HT': so = z3.ArraySort(Str, BV64)
        elif r[0] == 'HTN': so = z3.BitVecSort(32)
        elif r[0] == 'ghost': raise Unsupported('ghost sort %s' % (r,))
        else:
            so = z3.ArraySort(BV64, z3.BitVecSort(s.field_bits(r[0], r[1])))
        s.regsort[r] = so
        return so
    def setregion(s, mem, r, v):
        if s.writelog is not None:
            s.writelog.add(r)
            if s.addrlog is not None:
                d = s.addrlog.setdefault(r, {}); old = s.region(mem, r); x = v
                while z3.is_store(x) and not x.eq(old): d[x.arg(1).get_id()] = x.arg(1); s.keep.append(x); x = x.arg(0)
                if not x.eq(old): d[None] = None
        mem[r] = v
    def ghost(s, mem, name, sort):
        r = ('ghost', name); s.regsort.setdefault(r, sort); return s.region(mem, r)
    # ---------------------------------------------------------------- tags
    TAGS = {}
    def tagid(s, st):
        if st == 'xav_rule_data': pass
        if st not in Ctx.TAGS: Ctx.TAGS[st] = len(Ctx.TAGS) + 3   # 0 dead, 1 raw, 2 freed
        return bv(Ctx.TAGS[st], 8)
    def tag0(s, p):
        rl = s.readlog; s.readlog = None
        r = s.region({}, ('tag',))[p]
        s.readlog = rl
        return r
    def valid(s, mem, p, st):
        t = s.select(s.region(mem, ('tag',)), p)
        if st == 'av_rule_data': return Or(Eq(t, s.tagid('av_rule_data')), Eq(t, s.tagid('xav_rule_data')))
        return Eq(t, s.tagid(st))
    def select(s, arr, k):
        # light-weight select-over-store with syntactic decisions
        s.touch(arr, k)
        return s.resolve(arr, k)
    def resolve(s, arr, k):
        memo = s.selmemo; key = (arr.get_id(), k.get_id())
        if key in memo: return memo[key]
        a = arr; r = None
        while True:
            if z3.is_store(a):
                kk = a.arg(1)
                if kk.eq(k): r = a.arg(2); break
                if isval(kk) and isval(k) or s.distinct_fresh(kk, k): a = a.arg(0); continue
            elif z3.is_app_of(a, z3.Z3_OP_ITE):
                x, y = s.resolve(a.arg(1), k), s.resolve(a.arg(2), k)
                if x.eq(y): r = x
            break
        if r is None: r = z3.Select(a, k)
        memo[key] = r; s.keep += [arr, k]
        return r
    def pleaves(s, a):
        if z3.is_app_of(a, z3.Z3_OP_ITE) and a.get_id() not in s.origin:
            k = a.get_id()
            if k not in s.leafmemo:
                d = dict(s.pleaves(a.arg(1))); d.update(s.pleaves(a.arg(2))); s.leafmemo[k] = d; s.keep.append(a)
            return s.leafmemo[k]
        return {a.get_id(): a}
    def distinct_fresh(s, a, b):
        """syntactically: allocated here at different points, or one allocated here and the other null, static or older"""
        def one(a, b):
            x, y = a.get_id() in s.freshids, b.get_id() in s.freshids
            return x and y and not a.eq(b) or x and (b.get_id() in s.oldids or isval(b)) or y and (a.get_id() in s.oldids or isval(a))
        if z3.is_app_of(a, z3.Z3_OP_ITE) or z3.is_app_of(b, z3.Z3_OP_ITE):
            A, B = s.pleaves(a).values(), s.pleaves(b).values()
            return len(A) * len(B) <= 16 and all(one(x, y) for x in A for y in B)
        return one(a, b)
    def touch(s, arr, k):
        """instantiate frame facts of havocked arrays at address k"""
        if not s.frames or s.suspend: return
        st = [arr]
        while st:
            a = st.pop(); key = (a.get_id(), k.get_id())
            if key in s.touched: continue
            s.touched.add(key); s.keep.append(k); s.keep.append(a)
            if z3.is_store(a): st.append(a.arg(0))
            elif z3.is_app_of(a, z3.Z3_OP_ITE): st += [a.arg(1), a.arg(2)]
            elif a.get_id() in s.frames:
                fr_ = s.frames[a.get_id()]; old, tag = fr_[:2]
                s.axiom(Implies(And([s.select(tag, k) != 0] + [k != x for x in fr_[2:]]), z3.Select(a, k) == s.select(old, k)))
    # a later state agrees with the snapshot taken when a loop was entered at every object live then (and those
    # objects refer only to objects live then), so specification functions of such objects keep their value
    def tagchain(s, t):
        out = []
        while True:
            out.append(t)
            if z3.is_store(t) and t.arg(1).get_id() in s.freshids: t = t.arg(0)
            elif t.get_id() in s.frames: t = s.frames[t.get_id()][0]
            elif z3.is_app_of(t, z3.Z3_OP_ITE):
                b = {x.get_id() for x in s.tagchain(t.arg(2))}
                com = [x for x in s.tagchain(t.arg(1)) if x.get_id() in b]
                if not com: return out
                t = com[0]
            else: return out
    def backto(s, a, T, want):
        if a.eq(want): return True
        key = ('bt', a.get_id(), T.get_id(), want.get_id())
        if key in s.framedmemo: return s.framedmemo[key]
        r = False
        if z3.is_store(a):
            p = a.arg(1)
            r = p.get_id() in s.freshids and not any(z3.is_store(x) and x.arg(1).eq(p) for x in s.tagchain(T)) and s.backto(a.arg(0), T, want)
        elif z3.is_app_of(a, z3.Z3_OP_ITE): r = s.backto(a.arg(1), T, want) and s.backto(a.arg(2), T, want)
        elif a.get_id() in s.frames:
            f = s.frames[a.get_id()]
            r = len(f) == 2 and any(x.eq(T) for x in s.tagchain(f[1])) and s.backto(f[0], T, want)
        s.framedmemo[key] = r; s.keep += [a, T, want]
        return r
    def earlier(s, h, reads, arrs):
        for T in s.tagchain(s.region(h.mem, ('tag',))):
            for m in s.snaps.get(T.get_id(), ()):
                w = [s.region(m, r) for r in reads]
                if all(a.eq(x) for a, x in zip(arrs, w)): continue
                if all(a.eq(x) or (z3.is_array(a) and a.sort().domain() == BV64 and s.backto(a, T, x)) for a, x in zip(arrs, w)):
                    yield T, Heap(s, m); return
    def init_framed(s, arr, init, depth=0):
        """arr agrees with its initial version at every object live initially"""
        if arr.eq(init): return True
        key = ('if', arr.get_id(), init.get_id())
        if key in s.framedmemo: return s.framedmemo[key]
        r = False
        if z3.is_store(arr): r = arr.arg(1).get_id() in s.freshids and s.init_framed(arr.arg(0), init)
        elif z3.is_app_of(arr, z3.Z3_OP_ITE): r = s.init_framed(arr.arg(1), init) and s.init_framed(arr.arg(2), init)
        elif arr.get_id() in s.frames: r = len(s.frames[arr.get_id()]) == 2 and s.init_framed(s.frames[arr.get_id()][0], init)
        s.framedmemo[key] = r; s.keep.append(arr)
        return r
    # ---------------------------------------------------------------- field access
    def read_field(s, mem, p, st, fld):
        r = s.rname(st, fld)
        a = s.region(mem, r)
        v = s.select(a, p)
        s.inst_wf(p, st, fld)
        return v
    def inst_wf(s, p, st, fld):
        if s.suspend or s.wf is None: return
        k = (p.get_id(), st, fld)
        if k in s.wfdone: return
        s.wfdone.add(k); s.keep.append(p)
        old = s.readlog
        h = s.h0
        v = s.region({}, s.rname(st, fld))[p]
        lvl = s.reclevel; s.reclevel = 99
        for f in s.wf(s, h, p, st, fld, v):
            s.axiom(Implies(s.valid({}, p, st), f))
        s.reclevel = lvl
        s.readlog = old
    def strof(s, mem, p, nn=False):
        """text at p; nn: p is known not to be null where the text is used"""
        if z3.is_bv_value(p):
            n = p.as_long()
            if n in s.litaddr: return s.lit(s.litaddr[n])
            for b, t in s.litaddr.items():
                if b <= n <= b + len(t): return s.lit(t[n - b:])
        if z3.is_app_of(p, z3.Z3_OP_ITE):
            if p.get_id() not in s.origin:
                if nn:
                    for i in (1, 2):
                        if isval(p.arg(i)) and p.arg(i).as_long() == 0: return s.strof(mem, p.arg(3 - i), nn)
                v = s.resolve(s.region(mem, ('STR',)), p)
                if not z3.is_app_of(v, z3.Z3_OP_SELECT): return v      # written through this very pointer
                return Ite(p.arg(0), s.strof(mem, p.arg(1), nn), s.strof(mem, p.arg(2), nn))
        if p.get_id() in s.origin:
            b, o = s.origin[p.get_id()]
            return s.suf(s.strof(mem, b, nn), o)
        return s.select(s.region(mem, ('STR',)), p)
    # ---------------------------------------------------------------- strings
    def lit(s, b):
        if b not in s.lits:
            c = z3.Const('str:' + b.decode('latin1'), Str)
            s.lits[b] = c
            s.strterms[c.get_id()] = b; s.keep.append(c)
            sup = s.suspend; s.suspend = False
            if 1 <= len(b) <= 4:
                for x in s.charat.get(len(b), []): s.shortlit(x, b)
            s.axiom(s.uf('slen', [Str, BV64], c) == bv(len(b)))
            s.axiom(s.uf('ch0', [Str, z3.BitVecSort(8)], c) == bv(b[0] if b else 0, 8))
            s.suspend = sup
        return s.lits[b]
    def shortlit(s, x, b):
        """a string whose first characters are those of a short literal, up to its end, is that literal"""
        C = lambda k: s.uf('ch0', [Str, z3.BitVecSort(8)], x if k == 0 else s.uf('suf', [Str, BV64, Str], x, bv(k)))
        sup = s.suspend; s.suspend = False
        s.axiom(Implies(And([C(k) == bv(b[k] if k < len(b) else 0, 8) for k in range(len(b) + 1)]), x == s.lits[b]))
        s.suspend = sup
    def litval(s, x):
        return s.strterms.get(x.get_id())
    def uf(s, name, sorts, *args):
        f = s.ufs.get(name)
        if f is None: f = s.ufs[name] = z3.Function(name, *sorts)
        args = [s.coerce(a, so) for a, so in zip(args, sorts)]
        return f(*args) if args else z3.Const(name, sorts[-1])
    def slen(s, x):
        v = s.litval(x)
        if v is not None: return bv(len(v))
        l = s.uf('slen', [Str, BV64], x)
        s.axiom(z3.ULT(l, bv(1 << 40)))
        s.axiom((l == 0) == (x == s.lit(b'')))
        return l
    def ch(s, x, i=0):
        v = s.litval(x)
        if v is not None and isinstance(i, int): return bv(v[i] if i < len(v) else 0, 8)
        y, k = x, i
        if z3.is_app(x) and x.decl().name() == 'suf' and isval(x.arg(1)) and i == 0: y, k = x.arg(0), x.arg(1).as_long()
        if isinstance(k, int) and 1 <= k <= 4 and (y.get_id(), k) not in s.charseen and not s.suspend:
            s.charseen.add((y.get_id(), k)); s.keep.append(y); s.charat.setdefault(k, []).append(y)
            for b in [b for b in s.lits if len(b) == k]: s.shortlit(y, b)
        if not (isinstance(i, int) and i == 0):
            x = s.suf(x, i)
            return s.ch(x, 0)
        c = s.uf('ch0', [Str, z3.BitVecSort(8)], x)
        s.axiom((c == 0) == (x == s.lit(b'')))
        return c
    def leaves(s, a):
        if z3.is_app_of(a, z3.Z3_OP_ITE) and a.get_id() not in s.origin: return s.leaves(a.arg(1)) + s.leaves(a.arg(2))
        return [a]
    def origins_of(s, a):
        return [s.origin[x.get_id()] for x in s.leaves(a) if x.get_id() in s.origin]
    def strptr(s, mem, base, idx, pc):
        """pointer base+idx into a string, remembered by its origin"""
        if idx.size() < 64: idx = z3.SignExt(64 - idx.size(), idx)
        idx = z3.simplify(idx)
        if z3.is_bv_value(idx) and idx.as_long() == 0: return base
        if z3.is_app_of(base, z3.Z3_OP_ITE) and base.get_id() not in s.origin and any(x.get_id() in s.origin for x in s.leaves(base)):
            return z3.If(base.arg(0), s.strptr(mem, base.arg(1), idx, pc), s.strptr(mem, base.arg(2), idx, pc))
        if isval(base): return fold(base + idx, base, idx)
        if base.get_id() in s.origin:
            b0, o = s.origin[base.get_id()]
        else: b0, o = base, bv(0)
        off = z3.simplify(o + idx)
        if z3.is_bv_value(off) and off.as_long() == 0: return b0
        q = z3.simplify(b0 + off)
        key = q.get_id()
        if key not in s.origin:
            s.origin[key] = (b0, off); s.keep += [q, b0, off]
            s.axiom(Implies(z3.ULE(off, bv(1 << 40)), z3.ULE(b0, q)))   # objects do not wrap around
        return q
    def suf(s, x, k):
        if isinstance(k, int): k = bv(k)
        k = z3.simplify(k)
        if z3.is_bv_value(k) and k.as_long() == 0: return x
        if z3.is_app(x) and x.decl().name() == 'suf' and x.num_args() == 2 and s.opts.get('sufmerge', True):
            pass
        v = s.litval(x)
        if v is not None and z3.is_bv_value(k):
            return s.lit(v[k.as_long():] if k.as_long() <= len(v) else b'')
        t = s.uf('suf', [Str, BV64, Str], x, k)
        l = s.slen(x)
        s.axiom(Implies(z3.ULE(k, l), s.slen(t) == l - k))
        if z3.is_app(x) and x.decl().name() == 'pre':
            y, j = x.arg(0), x.arg(1)
            key = ('sufpre', t.get_id())
            if key not in s.charseen and not s.suspend:
                s.charseen.add(key); s.keep.append(t)
                s.axiom(Implies(And(z3.ULE(j, s.slen(y)), z3.ULE(k, j)), t == s.pre(s.suf(y, k), j - k)))
        if z3.is_app(x) and x.decl().name() == 'suf':
            y, j = x.arg(0), x.arg(1)
            s.axiom(Implies(And(z3.ULE(j, s.slen(y)), z3.ULE(j + k, s.slen(y))), t == s.uf('suf', [Str, BV64, Str], y, fold(j + k, j, k))))
        return t
    def pre(s, x, n):
        if isinstance(n, int): n = bv(n)
        n = z3.simplify(n)
        if n.eq(s.slen(x)): return x
        v = s.litval(x)
        if v is not None and z3.is_bv_value(n): return s.lit(v[:n.as_long()])
        t = s.uf('pre', [Str, BV64, Str], x, n)
        l = s.slen(x)
        s.axiom(s.slen(t) == z3.If(z3.ULE(n, l), n, l))
        s.axiom(Implies(z3.ULE(l, n), t == x))
        s.axiom(Implies(n != 0, s.ch(t) == s.ch(x)))
        if z3.is_app(x) and x.decl().name() == 'pre' and not x.arg(1).eq(n): s.axiom(Implies(z3.ULE(n, x.arg(1)), t == s.pre(x.arg(0), n)))
        return t
    def has(s, x, y):
        a, b = s.litval(x), s.litval(y)
        if a is not None and b is not None: return z3.BoolVal(b in a)
        t = s.uf('has', [Str, Str, z3.BoolSort()], x, y)
        s.axiom(Implies(x == y, t)); s.axiom(Implies(t, z3.ULE(s.slen(y), s.slen(x))))
        s.axiom(Implies(x == s.lit(b''), t == (y == s.lit(b''))))
        return t
    def endsw(s, x, y):
        """x ends with y; y Str term or bytes"""
        if isinstance(y, bytes): y = s.lit(y)
        return And(z3.ULE(s.slen(y), s.slen(x)), s.suf(x, s.slen(x) - s.slen(y)) == y)
    def slt(s, x, y):
        a, b = s.litval(x), s.litval(y)
        if a is not None and b is not None: return z3.BoolVal(a < b)
        t = s.uf('slt', [Str, Str, z3.BoolSort()], x, y)
        u = s.uf('slt', [Str, Str, z3.BoolSort()], y, x)
        s.axiom(Not(And(t, u))); s.axiom(Or(t, u, x == y)); s.axiom(Implies(x == y, Not(t)))
        return t
    # ---------------------------------------------------------------- addresses
    def new_addr(s, size=16):
        a = s.nextaddr; s.nextaddr += (size + 0x1f) & ~0xf
        return a
    def global_addr(s, mod, name):
        g = mod.globals.get(name)
        if g is not None and g[3]: key = (mod.name, name)
        elif g is not None and g[2] is None or g is None:
            key = ('', name); g = None
            for m in s.prog.mods.values():
                if name in m.globals and m.globals[name][2] is not None and not m.globals[name][3]:
                    g = m.globals[name]; mod = m
        else: key = ('', name)
        if key in s.gaddr: return s.gaddr[key]
        if g is None:
            g = mod.globals.get(name)
        sz = 16
        if g is not None:
            try: sz = s.sizeof(mod, g[1])
            except Unsupported: sz = 64
        a = s.new_addr(sz)
        t = bv(a)
        s.gaddr[key] = t
        if not hasattr(s, 'ginfo'): s.ginfo = {}
        s.ginfo[a] = (key, mod, g, sz)
        if g is not None and g[0] and g[1].k == 'array' and g[1].el.k == 'int' and g[1].el.n == 8:
            init = g[2]
            if init.k == 'cstr':
                b = init.v; b = b[:b.index(0)] if 0 in b else b
            else: b = b''
            s.litaddr[a] = b
            l = s.lit(b)
            s.axiom(s.region({}, ('STR',))[t] == l)
        s.axiom(s.tag0(t) == s.tagid('global' if a not in s.litaddr else 'char'))
        return t
    def fn_addr(s, name):
        key = ('fn', name)
        if key not in s.gaddr:
            a = s.new_addr(); s.gaddr[key] = bv(a)
            if not hasattr(s, 'fnat'): s.fnat = {}
            s.fnat[a] = name
        return s.gaddr[key]
    def setprov(s, t, pv):
        s.prov[t.get_id()] = pv; s.keep.append(t); return t
    def getprov(s, t):
        pv = s.prov.get(t.get_id())
        if pv is None and z3.is_bv_value(t):
            n = t.as_long()
            gi = getattr(s, 'ginfo', {})
            if n in gi: return ('g', n, 0)
            for a, (key, mod, g, sz) in gi.items():
                if a <= n < a + sz: return ('g', a, n - a)
        return pv
    # ---------------------------------------------------------------- values
    def sort_of(s, t):
        if t.k == 'int': return z3.BoolSort() if t.n == 1 else z3.BitVecSort(t.n)
        if t.k == 'ptr': return BV64
        if t.k == 'double': return z3.Float64()
        if t.k == 'float': return z3.Float32()
        raise Unsupported('sort %r' % t)
    def const(s, mod, op):
        t = op.ty
        k = op.k
        if k == 'int':
            if t.n == 1: return TRUE if op.v else FALSE
            return bv(op.v, t.n)
        if k == 'null': return bv(0)
        if k == 'zero':
            if t.k == 'int': return FALSE if t.n == 1 else bv(0, t.n)
            if t.k == 'ptr': return bv(0)
            if t.k in ('double', 'float'): return z3.FPVal(0, s.sort_of(t))
        if k == 'undef': return s.fresh('undef', s.sort_of(t))
        if k == 'global':
            if op.v in mod.fn_text or (op.v in mod.decls and op.v not in mod.globals): return s.fn_addr(op.v)
            return s.global_addr(mod, op.v)
        if k == 'fp':
            v = op.v
            if v.startswith('0x'):
                import struct
                d = struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
            else: d = float(v)
            return z3.FPVal(d, s.sort_of(t))
        if k == 'cexpr':
            if op.v == 'getelementptr':
                return s.gep(mod, op.extra, [s.const(mod, a) for a in op.args], op.args)
            if op.v in ('inttoptr', 'ptrtoint', 'bitcast'): return s.const(mod, op.args[0])
        raise Unsupported('const %s %s' % (k, op.v))
    def gep(s, mod, bt, vals, ops):
        base = vals[0]
        i0 = vals[1]
        if i0.size() < 64: i0 = fold(z3.SignExt(64 - i0.size(), i0), i0)
        sz = s.sizeof(mod, bt)
        addr = base
        pv = s.getprov(base)
        if not (z3.is_bv_value(i0) and i0.as_long() == 0):
            addr = fold(base + i0 * sz, base, i0)
            if pv and pv[0] == 'a':
                pv = ('a', pv[1], pv[2] + s.signed(i0) * sz) if (pv[2] is not None and z3.is_bv_value(i0)) else ('a', pv[1], None)
            elif pv and pv[0] == 'g':
                pv = None if z3.is_bv_value(addr) else ('g', pv[1], None)
            elif pv and pv[0] == 'fa': pv = pv
            elif pv and pv[0] == 'f' : pv = ('fa', pv[1], pv[2], pv[3])
            else: pv = None
            if pv: s.setprov(addr, pv)
        if getattr(s, 'ctb', None) is not None and base.eq(s.ctb) and bt.k == 'int' and bt.n == 16:
            addr = base + i0 * 2; s.setprov(addr, ('ctb', i0)); return addr
        t = bt
        for op, v in zip(ops[2:], vals[2:]):
            if v.size() < 64: v = fold(z3.SignExt(64 - v.size(), v), v)
            if t.k == 'struct':
                idx = v.as_long()
                nm = t.name
                d = t if t.el is not None else s.prog.type(mod, t.name)
                off, e = s.offset(mod, d, idx)
                old = addr
                opv = s.getprov(old)
                addr = fold(old + off, old) if off else old
                if nm and nm.startswith('union.'):
                    t = e; continue
                if opv and opv[0] in ('a', 'g'):
                    n = ('a' if opv[0] == 'a' else 'g', opv[1], None if opv[2] is None else opv[2] + off)
                    if off == 0 and opv == n: pass
                    else: s.setprov(addr, n)
                    if opv[2] is None and nm:
                        # symbolic element of a table: field region keyed by element address
                        st = nm.split('.', 1)[1]
                        addr = old + bv(off)
                        s.setprov(addr, ('ge', opv[1], off, old))
                else:
                    st = nm.split('.', 1)[1] if nm else '?'
                    if off == 0: addr = old + bv(0) if not isval(old) else old
                    s.setprov(addr, ('f', st, s.fieldname(st, idx, off), old))
                t = e
            elif t.k == 'array':
                esz = s.sizeof(mod, t.el)
                old = addr; opv = s.getprov(old)
                addr = fold(old + v * esz, old, v) if not (z3.is_bv_value(v) and v.as_long() == 0) else old
                if opv:
                    if opv[0] == 'f':
                        if addr is old: addr = old + bv(0)
                        s.setprov(addr, ('fa', opv[1], opv[2], opv[3]))
                        s.fab[addr.get_id()] = (v, t.n)
                    elif opv[0] in ('a', 'g'):
                        off = opv[2] + s.signed(v) * esz if opv[2] is not None and z3.is_bv_value(v) else None
                        s.setprov(addr, (opv[0], opv[1], off))
                    elif opv[0] == 'ge':
                        s.setprov(addr, ('ge', opv[1], None, old))
                t = t.el
            else: raise Unsupported('gep into %r' % t)
        return addr
    def signed(s, v):
        n = v.as_long(); b = v.size()
        return n - (1 << b) if n >> (b - 1) else n
    # global initialiser lookup by byte offset
    def ginit(s, mod, ty, init, off, want):
        if init.k == 'zero' or init.k == 'undef':
            so = want
            return s.const(mod, Op('zero', None, want))
        if ty.k == 'array':
            esz = s.sizeof(mod, ty.el); i = off // esz
            if init.k == 'cstr': return bv(init.v[i], 8)
            return s.ginit(mod, ty.el, init.args[i], off - i * esz, want)
        if ty.k == 'struct':
            d = ty if ty.el is not None else s.prog.type(mod, ty.name)
            for i, e in enumerate(d.el):
                o, _ = s.offset(mod, d, i)
                if o <= off < o + s.sizeof(mod, e): return s.ginit(mod, e, init.args[i], off - o, want)
            raise Unsupported('ginit padding')
        if off: raise Unsupported('ginit')
        return s.const(mod, init)
    # ---------------------------------------------------------------- load/store
    def load(s, mem, a, ty, pc=TRUE, line=None, who='', check=False):
        n = s.bits(ty) if ty.k != 'double' else 64
        if z3.is_app_of(a, z3.Z3_OP_ITE) and a.get_id() not in s.prov:
            c, x, y = a.children()
            return Ite(c, s.load(mem, x, ty, And(pc, c), line, who, check), s.load(mem, y, ty, And(pc, Not(c)), line, who, check))
        pv = s.getprov(a)
        if pv is None:
            if ty.k == 'int' and ty.n == 8:
                return s.load_byte(mem, a, pc, line, who, check)
            if check and s.memcheck:
                s.oblige('%s: dereferenced pointer is a valid cell' % who, 'deref', pc, s.valid(mem, a, 'cell'), line)
            v = s.select(s.region(mem, ('cell', n)), a)
            s.cell_wf(a, n)
            return v
        if pv[0] == 'f' or pv[0] == 'fa':
            _, st, fld, base = pv
            if check and s.memcheck:
                s.oblige('%s: access to %s.%s through valid pointer' % (who, st, fld), 'deref', pc, s.okaccess(mem, base, st, fld), line)
            if pv[0] == 'fa':
                s.fabound(a, pc, line, who, check)
                v = s.select(s.region(mem, s.rname(st, fld)), z3.simplify(a))
                if s.wf is not None and not s.suspend:
                    for f in s.wf(s, s.h0, base, st, fld, s.region({}, s.rname(st, fld))[a]):
                        s.axiom(Implies(s.valid({}, base, st), f))
            else:
                v = s.read_field(mem, base, st, fld)
            return s.fit(v, ty)
        if pv[0] == 'a':
            uid, off = pv[1], pv[2]
            if off is None: 
                r = ('aa', uid, n)
                s.regsort.setdefault(r, z3.ArraySort(BV64, z3.BitVecSort(n)))
                return s.fit(s.select(s.region(mem, r), a), ty)
            r = ('a', uid, off)
            if r not in mem and ('aa', uid, n) in mem: return s.fit(s.select(mem[('aa', uid, n)], a), ty)
            v = mem.get(r)
            if v is None:
                s.regsort[r] = s.sort_of(ty)
                v = s.region(mem, r)
            return s.fit(v, ty)
        if pv[0] == 'g':
            key, mod, g, sz = s.ginfo[pv[1]]
            if s.readlog is not None: pass
            if g is not None and g[0] and pv[2] is not None and g[2] is not None:
                if pv[1] in s.litaddr and ty.k == 'int' and ty.n == 8:
                    b = s.litaddr[pv[1]] + b'\0'
                    return bv(b[pv[2]] if pv[2] < len(b) else 0, 8)
                return s.fit(s.ginit(mod, g[1], g[2], pv[2], ty), ty)
            if pv[2] is None:
                if pv[1] in s.litaddr and ty.k == 'int' and ty.n == 8: return s.load_byte(mem, a, pc, line, who, check)
                if g is not None and g[0] and g[2] is not None:   # symbolic index into const table
                    return s.table_load(mod, g, pv[1], sz, a, ty, pc, line, who, check)
                r = ('ga', key[0] + '.' + key[1], n)
                s.regsort.setdefault(r, z3.ArraySort(BV64, z3.BitVecSort(n)))
                return s.fit(s.select(s.region(mem, r), a), ty)
            if g is not None and g[1].k in ('array',) :
                r = ('ga', key[0] + '.' + key[1], n)
                s.regsort.setdefault(r, z3.ArraySort(BV64, z3.BitVecSort(n)))
                return s.fit(s.select(s.region(mem, r), a), ty)
            r = ('g', key[0] + '.' + key[1], pv[2])
            s.regsort.setdefault(r, s.sort_of(ty) if not (ty.k == 'int' and ty.n == 1) else z3.BitVecSort(8))
            v = s.region(mem, r)
            if ty.k == 'ptr': s.global_wf(mem, key, v)
            return s.fit(v, ty)
        if pv[0] == 'ge':
            key, mod, g, sz = s.ginfo[pv[1]]
            if g is not None and g[0]: return s.table_load(mod, g, pv[1], sz, a, ty, pc, line, who, check)
            r = ('ga', key[0] + '.' + key[1], n)
            s.regsort.setdefault(r, z3.ArraySort(BV64, z3.BitVecSort(n)))
            return s.fit(s.select(s.region(mem, r), a), ty)
        if pv[0] == 'ctypep': return pv[1]
        if pv[0] == 'ctb': return s.ctype_bits(pv[1])
        raise Unsupported('load prov %s' % (pv,))
    def fabound(s, a, pc, line, who, check):
        b = s.fab.get(a.get_id())
        if b and check and s.memcheck and not (z3.is_bv_value(b[0]) and b[0].as_long() < b[1]):
            s.oblige('%s: array index in bounds' % who, 'bounds', pc, z3.ULT(b[0], bv(b[1])), line)
    def ctype_bits(s, i):
        i = z3.Extract(8, 0, i)
        r = lambda lo, hi: z3.And(z3.UGE(i, lo), z3.ULE(i, hi))
        up, lowc, dg = r(65, 90), r(97, 122), r(48, 57)
        sp = z3.Or(i == 32, r(9, 13))
        pr, gr = r(32, 126), r(33, 126)
        al = z3.Or(up, lowc)
        bits = [z3.Or(i == 32, i == 9), z3.Or(r(0, 31), i == 127), z3.And(gr, z3.Not(z3.Or(al, dg))), z3.Or(al, dg),
                FALSE, FALSE, FALSE, FALSE, up, lowc, al, dg, z3.Or(dg, r(65, 70), r(97, 102)), sp, pr, gr]
        return z3.Concat(*[z3.If(b, bv(1, 1), bv(0, 1)) for b in reversed(bits)])
    def global_region(s, name, file=None):
        """region of a scalar global (file: source of a file-private one)"""
        for m in s.prog.mods.values():
            if name in m.globals and m.globals[name][2] is not None and (file is None or m.name == file):
                g = m.globals[name]; ty = g[1]
                r = ('g', (m.name if g[3] else '') + '.' + name, 0)
                s.regsort.setdefault(r, s.sort_of(ty) if not (ty.k == 'int' and ty.n == 1) else z3.BitVecSort(8))
                return r
        raise Unsupported('global %s not found' % name)
    def read_global(s, mem, name, file=None): return s.region(mem, s.global_region(name, file))
    def global_wf(s, mem, key, v):
        f = s.opts.get('global_wf')
        if f and not s.suspend:
            for x in f(s, key[1], v): s.axiom(x)
    def cell_wf(s, a, n): pass
    def table_load(s, mod, g, base, sz, a, ty, pc, line, who, check):
        n = s.bits(ty) // 8
        if sz // max(n, 1) > 400: raise Unsupported('big table')
        # candidate offsets: every offset at which a scalar of this type lives
        offs = []
        def walk(t, o):
            if t.k == 'array':
                e = s.sizeof(mod, t.el)
                for i in range(t.n): walk(t.el, o + i * e)
            elif t.k == 'struct':
                d = t if t.el is not None else s.prog.type(mod, t.name)
                for i, e in enumerate(d.el):
                    oo, ee = s.offset(mod, d, i); walk(ee, o + oo)
            else: offs.append((o, t))
        walk(g[1], 0)
        offs = [o for o, t in offs if t.k == ty.k and (t.k != 'int' or t.n == ty.n)]
        if check and s.memcheck:
            s.oblige('%s: table index in bounds' % who, 'bounds', pc, Or([Eq(a, bv(base + o)) for o in offs]), line)
        v = None
        for o in offs:
            x = s.fit(s.ginit(mod, g[1], g[2], o, ty), ty)
            v = x if v is None else Ite(Eq(a, bv(base + o)), x, v)
        return v
    def fit(s, v, ty):
        if ty.k == 'int' and ty.n == 1 and z3.is_bv(v): return fold(z3.Extract(0, 0, v) == 1, v)
        if ty.k == 'double' and z3.is_bv(v): return z3.fpToFP(v, z3.Float64())
        if ty.k == 'float' and z3.is_bv(v): return z3.fpToFP(v, z3.Float32())
        if ty.k == 'int' and z3.is_bv(v) and v.size() != ty.n:
            if v.size() > ty.n: return fold(z3.Extract(ty.n - 1, 0, v), v)
            raise Unsupported('width mismatch')
        return v
    def okaccess(s, mem, base, st, fld=None):
        t = s.select(s.region(mem, ('tag',)), base)
        ok = s.valid(mem, base, st)
        if is_t(ok): return ok
        sz = s.struct_size(st)
        return Or(ok, And(Eq(t, s.tagid('rawmem')), z3.UGE(s.uf('objsize', [BV64, BV64], base), bv(sz))))
    def struct_size(s, st):
        for m in s.prog.mods.values():
            for pre in ('struct.', 'union.'):
                if pre + st in m.types: return s.sizeof(m, m.types[pre + st])
        return 8
    def load_byte(s, mem, a, pc, line, who, check):
        if s.opts.get('bytes'):
            if check and s.memcheck:
                s.oblige('%s: byte read in bounds' % who, 'deref', pc, s.readable(mem, a), line)
            return s.select(s.region(mem, ('bytes',)), a)
        if z3.is_bv_value(a):
            n = a.as_long()
        if check and s.memcheck:
            s.oblige('%s: character read inside a string' % who, 'deref', pc, s.strvalid(mem, a), line)
        return s.ch(s.strof(mem, a, True))
    def readable(s, mem, a):
        return z3.Not(s.uf('unreadable', [BV64, z3.BoolSort()], a))
    def strvalid(s, mem, a):
        if z3.is_bv_value(a):
            n = a.as_long()
            if n in s.litaddr or any(b <= n <= b + len(t) for b, t in s.litaddr.items()): return TRUE
        if a.get_id() in s.origin:
            b, o = s.origin[a.get_id()]
            return And(s.strvalid(mem, b), z3.ULE(o, s.slen(s.strof(mem, b))))
        if z3.is_app_of(a, z3.Z3_OP_ITE): return Ite(a.arg(0), s.strvalid(mem, a.arg(1)), s.strvalid(mem, a.arg(2)))
        return s.valid(mem, a, 'char')
    def store(s, mem, a, v, ty, pc=TRUE, line=None, who='', check=True):
        if z3.is_bool(v): v = z3.If(v, bv(1, 8), bv(0, 8))
        if z3.is_fp(v): v = z3.fpToIEEEBV(v)
        if z3.is_app_of(a, z3.Z3_OP_ITE) and a.get_id() not in s.prov:
            c, x, y = a.children()
            m1, m2 = dict(mem), dict(mem)
            s.store(m1, x, v, ty, And(pc, c), line, who, check); s.store(m2, y, v, ty, And(pc, Not(c)), line, who, check)
            s.merge_into(mem, c, m1, m2); return
        pv = s.getprov(a); n = v.size()
        if pv is None:
            if n == 8: return s.store_byte(mem, a, v, pc, line, who, check)
            if check and s.memcheck:
                s.oblige('%s: stored-to pointer is a valid cell' % who, 'deref', pc, s.valid(mem, a, 'cell'), line)
            s.setregion(mem, ('cell', n), z3.Store(s.region(mem, ('cell', n)), a, v)); return
        if pv[0] in ('f', 'fa'):
            _, st, fld, base = pv
            if check and s.memcheck:
                s.oblige('%s: write to %s.%s through valid pointer' % (who, st, fld), 'deref', pc, s.okaccess(mem, base, st, fld), line)
            r = s.rname(st, fld)
            if pv[0] == 'fa': s.fabound(a, pc, line, who, check)
            s.setregion(mem, r, z3.Store(s.region(mem, r), base if pv[0] == 'f' else z3.simplify(a), v))
            tg = s.region(mem, ('tag',)); tb = s.select(tg, base)
            if not z3.is_bv_value(tb) or tb.as_long() == s.tagid('rawmem').as_long():
                if base.get_id() in s.freshids or (z3.is_bv_value(tb)):
                    s.setregion(mem, ('tag',), z3.Store(tg, base, Ite(Eq(tb, s.tagid('rawmem')), s.tagid(st), tb)))
            return
        if pv[0] == 'a':
            if pv[2] is None:
                r = ('aa', pv[1], n); s.regsort.setdefault(r, z3.ArraySort(BV64, z3.BitVecSort(n)))
                s.setregion(mem, r, z3.Store(s.region(mem, r), a, v))
            else:
                r = ('a', pv[1], pv[2]); s.regsort[r] = v.sort(); s.setregion(mem, r, v)
                r = ('aa', pv[1], n); 
                if r in mem: s.setregion(mem, r, z3.Store(s.region(mem, r), a, v))
            return
        if pv[0] in ('g', 'ge'):
            key, mod, g, sz = s.ginfo[pv[1]]
            if g is not None and g[0]: raise Unsupported('store to constant')
            if pv[2] is None or pv[0] == 'ge' or (g is not None and g[1].k == 'array'):
                r = ('ga', key[0] + '.' + key[1], n); s.regsort.setdefault(r, z3.ArraySort(BV64, z3.BitVecSort(n)))
                s.setregion(mem, r, z3.Store(s.region(mem, r), a, v))
            else:
                r = ('g', key[0] + '.' + key[1], pv[2]); s.regsort.setdefault(r, v.sort()); s.setregion(mem, r, v)
            return
        raise Unsupported('store prov')
    def store_byte(s, mem, a, v, pc, line, who, check):
        if s.opts.get('bytes'):
            if check and s.memcheck:
                s.oblige('%s: byte write in bounds' % who, 'deref', pc, s.readable(mem, a), line)
            s.setregion(mem, ('bytes',), z3.Store(s.region(mem, ('bytes',)), a, v)); return
        f = s.opts.get('store_byte')
        if f: return f(s, mem, a, v, pc, line, who)
        raise Unsupported('byte store in abstract string mode (%s)' % who)
    def merge_into(s, mem, c, m1, m2):
        for r in set(m1) | set(m2):
            x, y = s.region(m1, r), s.region(m2, r)
            mem[r] = x if x.eq(y) else z3.If(c, x, y)
    def conj(s, pc):
        out = []; st = [pc]; seen = set()
        while st:
            a = st.pop()
            if z3.is_and(a): st += reversed(a.children())
            elif a.get_id() not in seen: seen.add(a.get_id()); out.append(a)
        return out
    def merge_pc(s, pcs):
        """disjunction of path conditions with the common conjuncts pulled out"""
        sets = [s.conj(p) for p in pcs]
        com = set.intersection(*[{a.get_id() for a in x} for x in sets])
        common = [a for a in sets[0] if a.get_id() in com]
        rest = [[a for a in x if a.get_id() not in com] for x in sets]
        if any(not r for r in rest): return And(common) if common else TRUE
        ids = [{a.get_id() for a in r} for r in rest]
        if len(rest) == 2 and len(rest[0]) == 1 and len(rest[1]) == 1 and Not(rest[0][0]).eq(rest[1][0]): return And(common) if common else TRUE
        return And(common + [Or([And(r) for r in rest])])
    def merge(s, edges):
        """edges -> (pc, mem)"""
        edges = [e for e in edges if not is_f(e.pc)]
        if len(edges) == 1: return edges[0].pc, dict(edges[0].mem)
        pc = s.merge_pc([e.pc for e in edges])
        mem = {}
        keys = set()
        for e in edges: keys |= set(e.mem)
        rl = s.readlog; s.readlog = None
        for r in keys:
            v = s.region(edges[-1].mem, r)
            for e in reversed(edges[:-1]):
                x = s.region(e.mem, r)
                if x.sort() != v.sort(): v = None; break
                v = v if x.eq(v) else z3.If(e.pc, x, v)
            if v is not None: mem[r] = v
        s.readlog = rl
        return pc, mem
    def malloc(s, mem, size, pc, tag='rawmem'):
        """fresh, non-null object (allocation failure is an assumption: see trusted base)"""
        p = s.fresh('new', BV64)
        s.axiom(z3.UGT(p, bv(1 << 32))); s.axiom(z3.ULT(p, bv(1 << 47)))
        s.axiom(s.tag0(p) == 0)
        t = s.region(mem, ('tag',))
        s.assume(pc, s.select(t, p) == 0)
        for q in s.freshobjs: s.axiom(q != p)
        s.freshobjs.append(p); s.freshids.add(p.get_id())
        if size is not None: s.axiom(s.uf('objsize', [BV64, BV64], p) == size)
        s.setregion(mem, ('tag',), z3.Store(t, p, s.tagid(tag)))
        return p
    def havoc_region(s, r):
        return s.fresh('hv:' + ':'.join(map(str, r)), s.region_sort(r))
    def frame_except(s, old, tag, *ex):
        new = z3.FreshConst(old.sort(), 'fx')
        s.frames[new.get_id()] = (old, tag) + ex; s.keep += [new] + list(ex)
        return new
    def frame_fresh(s, old, tag):
        """array equal to `old` at objects live in `tag`, arbitrary elsewhere"""
        new = z3.FreshConst(old.sort(), 'ff')
        s.frames[new.get_id()] = (old, tag); s.keep.append(new)
        return new
