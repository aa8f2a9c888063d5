"""Function execution: region walking, loops, calls."""
from sx import *

class Frame:
    def __init__(s, fn, key, contract): s.fn, s.key, s.contract = fn, key, contract; s.env = {}; s.allocas = {}

class TooBig(Exception): pass

class Exec:
    def __init__(s, ctx): s.c = ctx; s.depth = 0; s.stack = []; s.curpc = None; s.atomcache = {}
    # -------------------------------------------------------------- operands
    def val(s, fr, op):
        if op.k == 'local': return s.narrow(fr.env[op.v])
        return s.c.const(fr.fn.mod, op)
    def atoms(s, pc):
        r = s.atomcache.get(pc.get_id())
        if r is None:
            r = set(); st = [pc]
            while st:
                a = st.pop()
                if z3.is_and(a): st += a.children()
                else: r.add(a.get_id())
            s.atomcache[pc.get_id()] = r; s.c.keep.append(pc)
        return r
    def narrow(s, v):
        """pick the branch of a conditional value that the current path condition selects"""
        if s.curpc is None or not z3.is_expr(v): return v
        while z3.is_app_of(v, z3.Z3_OP_ITE) and v.sort() == BV64:
            at = s.atoms(s.curpc); q = v.arg(0)
            if q.get_id() in at: v = v.arg(1)
            elif Not(q).get_id() in at: v = v.arg(2)
            else: break
        return v
    # -------------------------------------------------------------- function
    def call_fn(s, fn, args, pc, mem, key, contract=None):
        """inline execution -> (pc_out, mem_out, ret)"""
        c = s.c
        fn.analyse()
        if s.depth > 24: raise Unsupported('inline depth (recursion without contract?) ' + fn.name)
        if fn.name in s.stack and contract is None: raise Unsupported('recursion without contract: ' + fn.name)
        s.stack.append(fn.name); s.depth += 1
        fr = Frame(fn, key, contract)
        for (n, t), a in zip(fn.params, args): fr.env[n] = a
        fr.entry_mem = dict(mem); fr.entry_args = args
        back, exits, rets = s.region(fr, set(fn.rpo), {fn.order[0]: [Edge(pc, dict(mem))]}, None)
        s.stack.pop(); s.depth -= 1
        rets = [r for r in rets if not is_f(r.pc)]
        if not rets: return FALSE, mem, (None if fn.ret.k == 'void' else c.fresh('noret', c.sort_of(fn.ret)))
        pc2, mem2 = c.merge(rets)
        rv = None
        if fn.ret.k != 'void':
            rv = rets[-1].phis['ret']
            for e in reversed(rets[:-1]): rv = Ite(e.pc, e.phis['ret'], rv)
        for r in list(mem2):
            if r[0] in ('a', 'aa') and r[1] in fr.allocas.values() and contract is None:
                pass
        return pc2, mem2, rv
    def region(s, fr, body, incoming, header):
        c, fn = s.c, fr.fn
        back, exits, rets = [], [], []
        incoming = {k: list(v) for k, v in incoming.items()}
        def route(tgt, e):
            if is_f(e.pc): return
            if tgt == header: back.append(e)
            elif tgt in body: incoming.setdefault(tgt, []).append(e)
            else: exits.append((tgt, e))
        for b in fn.rpo:
            if b not in body: continue
            edges = [e for e in incoming.get(b, []) if not is_f(e.pc)]
            if not edges: continue
            if b in fn.loops and b != header:
                for tgt, e in s.loop(fr, b, edges, rets): route(tgt, e)
                continue
            pc, mem = c.merge(edges)
            if is_f(pc): continue
            for I in fn.blocks[b]:
                if I.op != 'phi': break
                v = edges[-1].phis[I.res]
                for e in reversed(edges[:-1]): v = Ite(e.pc, e.phis[I.res], v)
                fr.env[I.res] = v
            s.block(fr, b, pc, mem, route, rets)
        return back, exits, rets
    def phis_for(s, fr, src, tgt):
        out = {}
        for I in fr.fn.blocks[tgt]:
            if I.op != 'phi': break
            for v, b in I.x:
                if b == src: out[I.res] = s.val(fr, v)
        return out
    def block(s, fr, b, pc, mem, route, rets):
        c, fn = s.c, fr.fn
        c.covered.add((fn.name, b))
        for I in fn.blocks[b]:
            op = I.op
            s.curpc = pc
            if op == 'phi': continue
            if op == 'br':
                if len(I.x) == 1:
                    route(I.x[0], Edge(pc, mem, s.phis_for(fr, b, I.x[0]), b))
                else:
                    cond = s.val(fr, I.a[0])
                    if I.x[0] == I.x[1]:
                        route(I.x[0], Edge(pc, mem, s.phis_for(fr, b, I.x[0]), b)); return
                    pt, pf = And(pc, cond), And(pc, Not(cond))
                    if 'paths' in c.opts and not c.inloop and not is_f(pt) and not is_f(pf):
                        if s.choose(2): pf, pt = And(pc, s.implied(Not(cond))), FALSE
                        else: pt, pf = And(pc, s.implied(cond)), FALSE
                    if not is_f(pt): route(I.x[0], Edge(pt, mem if is_f(pf) else dict(mem), s.phis_for(fr, b, I.x[0]), b))
                    if not is_f(pf): route(I.x[1], Edge(pf, mem, s.phis_for(fr, b, I.x[1]), b))
                return
            if op == 'switch':
                v = s.val(fr, I.a[0]); d, cases = I.x
                conds = {}
                alln = []
                for cv, t in cases:
                    q = Eq(v, bv(cv, v.size())) if not z3.is_bool(v) else (v if cv else Not(v))
                    alln.append(Not(q)); conds.setdefault(t, []).append(q)
                conds.setdefault(d, []).append(And(alln) if alln else TRUE)
                if 'paths' in c.opts and not c.inloop and len(conds) > 1:
                    t = list(conds)[s.choose(len(conds))]; conds = {t: conds[t]}
                for t, qs in conds.items():
                    route(t, Edge(And(pc, Or(qs)), dict(mem), s.phis_for(fr, b, t), b))
                return
            if op == 'ret':
                rv = s.val(fr, I.a[0]) if I.a else None
                rets.append(Edge(pc, mem, {'ret': rv}, b)); return
            if op == 'unreachable': return
            r = s.inst(fr, I, pc, mem)
            if r is not None:
                pc = r
                if is_f(pc): return
    def choose(s, n):
        """path mode: which way this run goes (every way is taken by some run)"""
        c = s.c; i = len(c.chosen)
        k = c.opts['paths'][i] if i < len(c.opts['paths']) else 0
        c.chosen.append((k, n)); return k
    def implied(s, q):
        """q with the conditions behind null tests of conditional pointers"""
        out = [q]; st = [(q, True)]
        while st:
            e, v = st.pop()
            if z3.is_not(e): st.append((e.arg(0), not v))
            elif z3.is_and(e) and v or z3.is_or(e) and not v: st += [(x, v) for x in e.children()]
            elif z3.is_eq(e) or z3.is_distinct(e) and e.num_args() == 2:
                if z3.is_distinct(e): v = not v
                for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if z3.is_app_of(x, z3.Z3_OP_ITE) and isval(y):
                        for i, w in ((1, x.arg(0)), (2, Not(x.arg(0)))):
                            if x.arg(i).eq(y):
                                if not v: a = Not(w)
                                elif x.arg(3 - i).get_id() in s.c.freshids: a = w
                                else: continue
                                out.append(a); st.append((a, True))
        return And(out)
    def who(s, fr): return fr.fn.name
    def inst(s, fr, I, pc, mem):
        c, op, env = s.c, I.op, fr.env
        line = (fr.fn, I.line)
        if op == 'alloca':
            k = (fr.key, I.res)
            uid = '%s.%s' % (fr.key, I.res)
            a = c.gaddr.get(('alloca', uid))
            sn = I.ty.name.split('.', 1)[1] if I.ty.k == 'struct' and I.ty.name else None
            if sn in c.opts.get('heap_structs', ()):      # address passed on: an object like any other
                p = c.malloc(mem, None, pc, sn); env[I.res] = p
                c.__dict__.setdefault('stackobj', {})[p.get_id()] = sn
                return
            if a is None:
                try: sz = c.sizeof(fr.fn.mod, I.ty)
                except Unsupported: sz = 4096
                if I.a:
                    n = s.val(fr, I.a[0]); sz = sz * (n.as_long() if z3.is_bv_value(n) else 4096)
                ad = c.new_addr(sz); a = bv(ad); c.gaddr[('alloca', uid)] = a
                c.allocarange = getattr(c, 'allocarange', []); c.allocarange.append((ad, sz, uid))
                c.axiom(c.tag0(a) == 0)
            fr.allocas[I.res] = uid
            c.setprov(a, ('a', uid, 0))
            env[I.res] = a; 
            for r in [r for r in mem if r[0] in ('a', 'aa') and r[1] == uid]: del mem[r]
            return
        if op == 'load':
            a = s.val(fr, I.a[0])
            env[I.res] = c.load(mem, a, I.ty, pc, line, fr.fn.name, True); return
        if op == 'store':
            t = I.ty
            if t.k in ('struct', 'array', 'vector'): raise Unsupported('aggregate store')
            c.store(mem, s.val(fr, I.a[1]), s.val(fr, I.a[0]), t, pc, line, fr.fn.name, True); return
        if op == 'gep':
            vs = [s.val(fr, a) for a in I.a]
            env[I.res] = c.gep(fr.fn.mod, I.x, vs, I.a)
            if I.x.k == 'int' and I.x.n == 8: env[I.res] = s.strgep(pc, mem, vs[0], vs[1], env[I.res])
            return
        if op == 'call': return s.call(fr, I, pc, mem)
        if op == 'icmp':
            a, b = s.val(fr, I.a[0]), s.val(fr, I.a[1])
            for u, v in ((a, b), (b, a)):
                if I.x in ('eq', 'ne') and isval(v) and v.sort() == BV64 and v.as_long() == 0 and u.get_id() in c.nullcond:
                    q = c.nullcond[u.get_id()]; env[I.res] = q if I.x == 'eq' else Not(q); return
            env[I.res] = icmp(I.x, a, b); return
        if op == 'select':
            q, a, b = [s.val(fr, x) for x in I.a]; env[I.res] = Ite(q, a, b); return
        if op in BIN:
            a, b = s.val(fr, I.a[0]), s.val(fr, I.a[1]); env[I.res] = s.binop(op, a, b, pc, line, fr); return
        if op in CAST:
            env[I.res] = cast(c, op, s.val(fr, I.a[0]), I.ty); return
        if op == 'fcmp':
            a, b = s.val(fr, I.a[0]), s.val(fr, I.a[1])
            f = {'oeq': z3.fpEQ, 'ogt': z3.fpGT, 'oge': z3.fpGEQ, 'olt': z3.fpLT, 'ole': z3.fpLEQ,
                 'une': lambda x, y: z3.Not(z3.fpEQ(x, y)), 'ueq': z3.fpEQ, 'ugt': z3.fpGT, 'one': lambda x, y: z3.Not(z3.fpEQ(x, y))}[I.x]
            env[I.res] = f(a, b); return
        if op == 'fneg': env[I.res] = z3.fpNeg(s.val(fr, I.a[0])); return
        if op == 'freeze': env[I.res] = s.val(fr, I.a[0]); return
        raise Unsupported('%s in %s: %s' % (op, fr.fn.name, I.x))
    def strgep(s, pc, mem, base, idx, q):
        c = s.c
        if c.opts.get('bytes') or isval(q) or q.eq(base): return q
        if c.getprov(base) and c.getprov(base)[0] in ('a', 'f', 'fa', 'ge'): return q
        return c.strptr(mem, base, idx, pc)
    def binop(s, op, a, b, pc, line, fr):
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](z3.RNE(), a, b)
        if z3.is_bool(a):
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op == 'xor':
                if is_t(b): return Not(a)
                if is_t(a): return Not(b)
                if is_f(b): return a
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if op in ('udiv', 'sdiv', 'urem', 'srem') and s.c.memcheck:
            s.c.oblige('%s: division by zero' % fr.fn.name, 'arith', pc, Ne(b, bv(0, b.size())), line)
        f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
             'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
        if op == 'sub' and a.eq(b): return bv(0, a.size())
        return fold(f, a, b)
    # -------------------------------------------------------------- calls
    def call(s, fr, I, pc, mem):
        c = s.c
        f = I.x
        args = [s.val(fr, a) if a.k != 'meta' else None for a in I.a]
        line = (fr.fn, I.line)
        if f.k == 'global': name = f.v; mod = fr.fn.mod
        else:
            fv = s.val(fr, f); mod = None
            nm = s.resolve_fnptr(fv)
            if nm is None:
                h = c.opts.get('indirect')
                if h is None: raise Unsupported('indirect call in ' + fr.fn.name)
                r = h(c, mem, fv, args, pc, line, fr.fn.name)
                if I.res is not None: fr.env[I.res] = r
                return
            name = nm
        return s.do_call(fr, name, mod, args, pc, mem, I, line)
    def resolve_fnptr(s, fv):
        if z3.is_bv_value(fv): return getattr(s.c, 'fnat', {}).get(fv.as_long())
        return None
    def do_call(s, fr, name, mod, args, pc, mem, I, line):
        c = s.c
        c.cur_line = line
        con = c.contracts.get(name)
        noinl = c.opts.get('no_contract', ())
        if con is not None and not con.inline and name not in noinl and c.prog.has(name) | con.external:
            c.contracts_used.add(name)
            r = con.apply(c, mem, args, pc, line, fr.fn.name, I.ty)
            if I.res is not None: fr.env[I.res] = r if z3.is_expr(r) else c.coerce(r, c.sort_of(I.ty))
            if con.noreturn: return FALSE
            return
        import externs
        if not c.prog.has(name):
            e = externs.EXT.get(name)
            if name.startswith('llvm.'): e = externs.EXT.get('.'.join(name.split('.')[:2]))
            if e is None: raise Unsupported('external function %s (called from %s)' % (name, fr.fn.name))
            c.externs_used.add(name)
            r = e(c, mem, args, pc, line, fr.fn.name, I)
            if isinstance(r, str) and r == 'noreturn': return FALSE
            if I.res is not None: fr.env[I.res] = r
            return
        fn = c.prog.find(name, mod)
        c.inlined.add(name)
        cnt = fr.__dict__.setdefault('callcnt', {})
        k = '%s/%s@%s' % (fr.key, name, I.res or I.blk)
        pc2, mem2, rv = s.call_fn(fn, args, pc, mem, k)
        mem.clear(); mem.update(mem2)
        if I.res is not None: fr.env[I.res] = rv
        if pc2.eq(pc): return
        return pc2
    # -------------------------------------------------------------- loops
    def loop(s, fr, h, edges, rets):
        c, fn = s.c, fr.fn
        key = fr.key + ':' + h
        body = fn.loops[h]
        bound = c.opts.get('unroll_bound')
        c.inloop += 1
        c.loopat.setdefault(key, len(c.chosen))
        try: return s.loop_(fr, h, edges, rets, key, body, bound)
        finally: c.inloop -= 1
    def loop_(s, fr, h, edges, rets, key, body, bound):
        c = s.c
        if not fr.__dict__.get('nounroll', {}).get(h):
            r = s.try_unroll(fr, h, body, edges, rets, key)
            if r is not None: return r
        if bound: return s.bounded(fr, h, body, edges, rets, bound)
        return s.invariant(fr, h, body, edges, rets, key)
    def snapshot(s):
        c = s.c
        return (len(c.facts), len(c.obls))
    def rollback(s, sn):
        c = s.c
        del c.facts[sn[0]:]; del c.obls[sn[1]:]
    def static_exit_const(s, fr, h, body, back, exits):
        pass
    def try_unroll(s, fr, h, body, edges, rets, key, limit=130):
        c = s.c
        if c.opts.get('nounroll_all'): return None
        # cheap pre-check: header phi with constant entry value
        ph = [I for I in fr.fn.blocks[h] if I.op == 'phi']
        if not any(all(isval(e.phis[I.res]) for e in edges) for I in ph): return None
        sn = s.snapshot(); n0 = len(rets)
        outs = []; cur = edges; decided = False
        for it in range(limit):
            c.exit_decided = False
            back, exits, rr = s.region_decide(fr, body, {h: cur}, h)
            outs += exits; rets += rr
            if not back: return outs
            if not c.exit_decided:
                s.rollback(sn); del rets[n0:]; return None
            cur = back
        s.rollback(sn); del rets[n0:]
        return None
    def region_decide(s, fr, body, inc, h):
        c = s.c
        # exit edges exist statically; "decided" when at least one exiting branch folded to a constant
        back, exits, rr = s.region(fr, body, inc, h)
        stat = [(b, t) for b in body for t in fr.fn.succ[b] if t not in body]
        taken = {(e.src, t) for t, e in exits}
        hd = [(b, t) for (b, t) in stat if (b, t) not in taken and (fr.fn.name, b) in c.covered]
        c.exit_decided = bool(hd) and bool(back)
        return back, exits, rr
    def bounded(s, fr, h, body, edges, rets, bound):
        outs = []; cur = edges
        for it in range(bound):
            back, exits, rr = s.region(fr, body, {h: cur}, h)
            outs += exits; rets += rr
            if not back: return outs
            cur = back
        s.c.bounded_cut = True
        return outs
    def invariant(s, fr, h, body, edges, rets, key):
        c, fn = s.c, fr.fn
        pc0, mem0 = c.merge(edges)
        phis = [I for I in fn.blocks[h] if I.op == 'phi']
        entry = {}
        for I in phis:
            v = edges[-1].phis[I.res]
            for e in reversed(edges[:-1]): v = Ite(e.pc, e.phis[I.res], v)
            entry[I.res] = v
        # 1. which regions does the body write?
        wr = c.loopwrites.get(key)
        if wr is None:
            wr = set()
            while True:
                sn = s.snapshot(); log = c.writelog; c.writelog = set(); n0 = len(rets)
                alog, c.addrlog = c.addrlog, {}; first = next(c.cnt)
                m1 = dict(mem0)
                for r in wr: m1[r] = c.havoc_region(r)
                hv = {I.res: c.fresh(I.res, entry[I.res].sort()) for I in phis}
                for I in phis: s.copyprov(entry[I.res], hv[I.res])
                nested = dict(c.loopwrites)
                bk, _, _ = s.region(fr, body, {h: [Edge(pc0, m1, hv)]}, h)
                for I in phis:
                    for e in bk:
                        if not z3.is_bv(hv[I.res]) or hv[I.res].size() != 64: continue
                        if any(o[0].eq(hv[I.res]) for o in c.origins_of(e.phis[I.res])): c.walkers.add((key, I.res))
                w = c.writelog; c.writelog = log; s.rollback(sn); del rets[n0:]
                c.loopaddrs[key] = {r: (None if None in a or any(not s.older(x, first) for x in a.values()) else list(a.values())) for r, a in c.addrlog.items()}
                if alog is not None:
                    for r, a in c.addrlog.items(): alog.setdefault(r, {}).update(a)
                c.addrlog = alog
                if log is not None: log |= w
                if w <= wr: break
                wr |= w
            c.loopwrites[key] = wr
        elif c.writelog is not None:
            c.writelog |= wr
            for r in wr:
                d = c.addrlog.setdefault(r, {}); a = c.loopaddrs.get(key, {}).get(r)
                if a is None: d[None] = None
                else: d.update({x.get_id(): x for x in a})
        live = [r for r in wr]
        nofr = {('frame:' + ':'.join(map(str, r))) + x for r in c.opts.get('noloopframe', ()) for x in ('', ':0')}
        # 2. candidates
        dropped = c.loopinv.setdefault(key, set()); dropped |= nofr
        mem1 = dict(mem0)
        tag0 = c.region(mem0, ('tag',))
        if c.opts.get('persist'): c.snaps.setdefault(tag0.get_id(), []).append(mem0); c.keep.append(tag0)
        for r in live:
            if r[0] == 'a' and r not in mem0: 
                pass
            old = c.region(mem0, r)
            fk = 'frame:' + ':'.join(map(str, r))
            if z3.is_array(old) and old.sort().domain() == BV64 and r[0] not in ('aa', 'ga', 'ghost') and fk not in dropped:
                # unchanged at objects live at loop entry
                mem1[r] = c.frame_fresh(old, tag0)
            elif r == ('STR',) and c.loopaddrs[key].get(r):
                for x in c.loopaddrs[key][r]: mem1[r] = z3.Store(c.region(mem1, r), x, c.fresh('cut', Str))   # the only strings the body writes to
            elif z3.is_array(old) and fk + ':0' not in dropped and old.sort().domain() == BV64 and r[0] not in ('aa', 'ga', 'ghost', 'HT', 'bytes'):
                mem1[r] = c.frame_fresh(old, c.region(c.mem0, ('tag',)))
            else:
                mem1[r] = c.havoc_region(r)
        hv = {I.res: c.fresh(I.res, entry[I.res].sort()) for I in phis}
        for I in phis: hv[I.res] = s.walker(key, I.res, entry[I.res], hv[I.res], mem0)
        L = LoopInfo(s, fr, h, key, phis, entry, hv, mem0, mem1, pc0); L.body = body
        cands = [(n, f) for n, f in gen_candidates(L) if n not in dropped and not (c.opts.get('lean') and fr.contract and fr.contract.loopsum and any(x in n for x in ('==const', 'in {0,1}', 'entry-heap', '!=0')))]
        for n, f in cands:
            g = f(entry, mem0, True)
            if g is None: dropped.add(n); continue
            c.oblige('%s: loop %s invariant initially: %s' % (fn.name, h, n), 'houdini', pc0, g, None, (key, n), then_assume=False)
        pc1 = c.fresh('loop', z3.BoolSort())
        c.facts.append(z3.Implies(pc1, pc0)) if not is_t(pc0) else None
        for n, f in cands:
            if n in dropped: continue
            c.assume(pc1, f(hv, mem1, False))
        back, exits, rr = s.region(fr, body, {h: [Edge(pc1, dict(mem1), hv)]}, h)
        rets += rr
        if fr.contract and fr.contract.loopsum: s.summary(fr, h, key, phis, entry, hv, mem0, mem1, live, back, exits, dropped)
        if back:
            pcb, memb = c.merge(back)
            bvals = {}
            for I in phis:
                v = back[-1].phis[I.res]
                for e in reversed(back[:-1]): v = Ite(e.pc, e.phis[I.res], v)
                bvals[I.res] = v
            for n, f in cands:
                if n in dropped: continue
                c.oblige('%s: loop %s invariant preserved: %s' % (fn.name, h, n), 'houdini', pcb, f(bvals, memb, False), None, (key, n), then_assume=False)
            for r in live:
                fk = 'frame:' + ':'.join(map(str, r))
                old = c.region(mem0, r); new = c.region(memb, r)
                if new.eq(old): continue
                if z3.is_array(old) and old.sort().domain() == BV64 and r[0] not in ('aa', 'ga', 'ghost'):
                    p = c.fresh('sk', BV64)
                    if fk not in dropped:
                        c.oblige('%s: loop %s frame %s' % (fn.name, h, fk), 'houdini', pcb,
                             z3.Implies(z3.Select(tag0, p) != 0, c.select(new, p) == c.select(old, p)), None, (key, fk), then_assume=False)
                    elif fk + ':0' not in dropped and r[0] not in ('HT', 'bytes') and not (r == ('STR',) and c.loopaddrs[key].get(r)):
                        c.oblige('%s: loop %s frame0 %s' % (fn.name, h, fk), 'houdini', pcb,
                             z3.Implies(c.tag0(p) != 0, c.select(new, p) == c.select(old, p)), None, (key, fk + ':0'), then_assume=False)
            # termination
            if c.opts.get('termination', True) and not (fr.contract and fr.contract.no_term):
                alts = []
                L.memb = memb
                vc = variant_candidates(L, hv, bvals)
                c.oblige('%s: loop makes progress (some variant decreases)' % fn.name, 'variant', pcb, VariantGoal(c, vc), None)
        return exits
    def texts(s, fr, h):
        out = set()
        for b in fr.fn.loops[h]:
            for I in fr.fn.blocks[b]:
                if I.op == 'call':
                    for a in I.a:
                        if a.k == 'global':
                            v = s.c.const(fr.fn.mod, a)
                            if isval(v) and v.as_long() in s.c.litaddr: out.add(s.c.litaddr[v.as_long()])
        return out
    def summary(s, fr, h, key, phis, entry, hv, memA, mem1, live, back, exits, dropped):
        """relations between the state at a loop header and the state in which the loop is left, by
        induction on the number of remaining iterations (the loop is shown to terminate separately)"""
        c = s.c; ptrs = [I.res for I in phis if entry[I.res].sort() == BV64]; names = [I.res for I in phis]
        pos = lambda n: 'phi%d' % names.index(n)
        arrs = [r for r in live if r != ('tag',) and z3.is_array(c.region(mem1, r)) and c.region(mem1, r).sort().domain() == BV64 and r[0] not in ('aa', 'ga', 'ghost', 'a') and r not in c.opts.get('noloopframe', ())]
        rels = []; xrels = []
        for nm, f, *_ in fr.contract.loopsum:
            if _ and _[0] == 'exit':      # relations that also involve the value a pointer of the loop has when the loop is left
                for combo in itertools.permutations(ptrs, f.__code__.co_argcount - 3):
                    for x in ptrs:
                        if E_const(entry[x]): xrels.append(('sum:%s(%s;%s)' % (nm, ','.join(map(pos, combo)), pos(x)), lambda A, X, v, xv, f=f, combo=combo, x=x: f(Heap(c, A), Heap(c, X), *[v[y] for y in combo], xv[x])))
                continue
            if _:      # relations that also involve the arguments and an integer of the loop
                if len(_) > 1 and _[1] not in s.texts(fr, h): continue      # relations about a text the loop does not mention
                for y in [I.res for I in phis if z3.is_bv(hv[I.res]) and hv[I.res].size() == 32]:
                    for x in ptrs: rels.append(('sum:%s(%s,%s)' % (nm, pos(x), pos(y)), lambda A, X, v, f=f, x=x, y=y: f(Heap(c, A), Heap(c, X), c.root_args, v[x], v[y])))
                continue
            for combo in itertools.permutations(ptrs, f.__code__.co_argcount - 2):
                rels.append(('sum:%s(%s)' % (nm, ','.join(map(pos, combo))), lambda A, X, v, f=f, combo=combo: f(Heap(c, A), Heap(c, X), *[v[x] for x in combo])))
        rels = [x for x in rels if x[0] not in dropped]
        xrels = [x for x in xrels if x[0] not in dropped]
        if not rels and not xrels: return
        frs = [(r, 'sumframe:%s(%s)' % (':'.join(map(str, r)), pos(y) if y else ''), y) for r in arrs for y in [None] + ptrs]
        frs = [x for x in frs if x[1] not in dropped]
        p = c.fresh('sk', BV64)
        def frame(A, X, r, ex, p=p):
            return Implies(And([p != 0, c.select(c.region(A, ('tag',)), p) != 0] + ([p != ex] if ex is not None else [])), c.select(c.region(X, r), p) == c.select(c.region(A, r), p))
        def ob(n, pc, g, what):
            c.oblige('%s: loop %s %s: %s' % (fr.fn.name, h, what, n), 'houdini', pc, g, None, (key, n), then_assume=False)
        for t, e in exits:
            for n, f in rels: ob(n, e.pc, f(mem1, e.mem, hv), 'summary at exit')
            for n, f in xrels: ob(n, e.pc, f(mem1, e.mem, hv, hv), 'summary at exit')
            for r, n, y in frs: ob(n, e.pc, frame(mem1, e.mem, r, hv[y] if y else None), 'summary at exit')
        if back:
            pcb, memb = c.merge(back); bv_ = {}
            for I in phis:
                v = back[-1].phis[I.res]
                for e in reversed(back[:-1]): v = Ite(e.pc, e.phis[I.res], v)
                bv_[I.res] = v
            X = dict(memb)
            for r in live:
                k = [y for r2, n, y in frs if r2 == r]
                if r == ('tag',) and c.opts.get('persist'): X[r] = c.frame_fresh(c.region(memb, r), c.region(memb, r)); continue    # objects stay what they are
                if k: X[r] = c.frame_except(c.region(memb, r), c.region(memb, ('tag',)), *([bv_[k[0]]] if k[0] else []))
                else: X[r] = c.havoc_region(r)
            pci = c.fresh('rest', z3.BoolSort()); c.facts.append(z3.Implies(pci, pcb))
            xv = {n: c.fresh('exit', hv[n].sort()) for n in ptrs}
            for n, f in rels: c.assume(pci, f(memb, X, bv_))
            for n, f in xrels: c.assume(pci, f(memb, X, bv_, xv))
            for n, f in rels: ob(n, pci, f(mem1, X, hv), 'summary by induction')
            for n, f in xrels: ob(n, pci, f(mem1, X, hv, xv), 'summary by induction')
            for r, n, y in frs: ob(n, pci, frame(mem1, X, r, hv[y] if y else None), 'summary by induction')
        for t, e in exits:
            for n, f in rels: c.assume(e.pc, f(memA, e.mem, entry))
            for n, f in xrels: c.assume(e.pc, f(memA, e.mem, entry, hv))
            for r, n, y in frs:
                for q in ptrs: c.assume(e.pc, frame(memA, e.mem, r, entry[y] if y else None, entry[q]))
    def older(s, t, first):
        """every constant of the term existed before"""
        st = [t]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if '!' in n and s.c.freshat.get(n, first) >= first: return False
            st += x.children()
        return True
    def copyprov(s, a, b):
        pass
    def walker(s, key, n, e, hv, mem):
        """a pointer that walks over one string: express it as that string's address plus an offset"""
        c = s.c
        if not z3.is_bv(hv) or hv.size() != 64 or isval(e): return hv
        os_ = c.origins_of(e); nul = any(isval(x) and x.as_long() == 0 for x in c.leaves(e))
        if os_ and all(o[0].eq(os_[0][0]) for o in os_) and len(os_) + nul == len(c.leaves(e)): base = os_[0][0]
        elif (key, n) in c.walkers: base = e; nul = False
        else: return hv
        k = c.fresh(n + ':off', BV64)
        q = c.strptr(mem, base, k, FALSE)
        if nul:
            c.axiom(q != 0); nb = c.fresh(n + ':null', z3.BoolSort()); q = z3.If(nb, bv(0), q); c.nullcond[q.get_id()] = nb
        c.walkinfo[q.get_id()] = (base, k); c.keep.append(q)
        return q

def E_const(x): return isval(x)
def VariantGoal(c, vcs):
    # single variant chosen per loop would be sound; a disjunction across iterations is not, so
    # the disjuncts are kept as alternatives and the first one that is always decreasing is used
    g = z3.BoolVal(False) if not vcs else Or([v for _, v in vcs])
    c.variant_alts[g.get_id()] = vcs; c.keep.append(g)
    return g

class LoopInfo:
    def __init__(s, ex, fr, h, key, phis, entry, hv, mem0, mem1, pc0):
        s.ex, s.fr, s.h, s.key, s.phis, s.entry, s.hv, s.mem0, s.mem1, s.pc0 = ex, fr, h, key, phis, entry, hv, mem0, mem1, pc0
        s.c = ex.c
    def isptr(s, n):
        t = [I for I in s.phis if I.res == n][0].ty
        return t is not None and t.k == 'ptr'

def icmp(p, a, b):
    if z3.is_bool(a):
        if p == 'eq': return Iff(a, b)
        if p == 'ne': return Not(Iff(a, b))
        a = z3.If(a, bv(1, 8), bv(0, 8)); b = z3.If(b, bv(1, 8), bv(0, 8))
    if p == 'eq': return fold(Eq(a, b), a, b)
    if p == 'ne': return fold(Ne(a, b), a, b)
    f = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
         'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[p]
    return fold(f(a, b), a, b)

def cast(c, op, v, t):
    if op in ('ptrtoint', 'inttoptr', 'bitcast'):
        if z3.is_bv(v) and t.k == 'int' and t.n < v.size(): return fold(z3.Extract(t.n - 1, 0, v), v)
        return v
    if op in ('zext', 'sext'):
        if z3.is_bool(v):
            one = bv(1 if op == 'zext' else -1, t.n)
            return Ite(v, one, bv(0, t.n))
        d = t.n - v.size()
        return fold((z3.ZeroExt if op == 'zext' else z3.SignExt)(d, v), v)
    if op == 'trunc':
        if t.n == 1: 
            if z3.is_app_of(v, z3.Z3_OP_ITE) and isval(v.arg(1)) and isval(v.arg(2)) and v.arg(1).as_long() & 1 == 1 and v.arg(2).as_long() & 1 == 0:
                return v.arg(0)
            return fold(z3.Extract(0, 0, v) == 1, v)
        if z3.is_bool(v): v = z3.If(v, bv(1, t.n), bv(0, t.n)); return v
        return fold(z3.Extract(t.n - 1, 0, v), v)
    so = c.sort_of(t)
    if op == 'uitofp': return z3.fpToFP(z3.RNE(), v, so) if False else z3.fpUnsignedToFP(z3.RNE(), v, so)
    if op == 'sitofp': return z3.fpSignedToFP(z3.RNE(), v, so)
    if op == 'fptoui': return z3.fpToUBV(z3.RTZ(), v, so)
    if op == 'fptosi': return z3.fpToSBV(z3.RTZ(), v, so)
    if op in ('fpext', 'fptrunc'): return z3.fpFPToFP(z3.RNE(), v, so)
    raise Unsupported('cast ' + op)

# ---------------------------------------------------------------- candidates
def gen_candidates(L):
    """[(name, f(vals, mem, is_entry) -> formula)]"""
    c = L.c; out = []
    con = c.root_contract
    tails = list(con.tails) if con else []
    names = [I.res for I in L.phis]
    sorts = {n: L.entry[n].sort() for n in names}
    E = L.entry
    ptrs = [n for n in names if sorts[n] == BV64]
    bools = [n for n in names if sorts[n] == z3.BoolSort()]
    ints = [n for n in names if z3.is_bv_sort(sorts[n])]
    def pos(n): return 'phi%d' % names.index(n)
    h0 = Heap(c, L.mem0)
    A = c.root_args
    for n in ints:
        if True:
            if not (isval(E[n])): out.append((pos(n) + '==entry', lambda v, m, e, n=n: Eq(v[n], E[n])))
        if isval(E[n]):
            out.append((pos(n) + '==const', lambda v, m, e, n=n: Eq(v[n], E[n])))
    for n in bools:
        out.append((pos(n) + '==entry', lambda v, m, e, n=n: Iff(v[n], E[n])))
    for n in ptrs:
        out.append((pos(n) + '!=0', lambda v, m, e, n=n: Ne(v[n], bv(0))))
        used = {I.x.name.split('.', 1)[1] for bl in L.fr.fn.blocks.values() for I in bl if I.op == 'gep' and I.x.k == 'struct' and I.x.name and I.a[0].k == 'local' and I.a[0].v == n}
        for st in (con.ptr_types if con else []):
            if used and st not in used: continue
            out.append((pos(n) + ':null or ' + st, lambda v, m, e, n=n, st=st: Or(Eq(v[n], bv(0)), c.valid(m, v[n], st))))
            if st != 'char':
                out.append((pos(n) + ':null or entry-heap ' + st, lambda v, m, e, n=n, st=st: Or(Eq(v[n], bv(0)), c.valid({}, v[n], st))))
    # pointers in scope: arguments of the (possibly inlined) function and phis of enclosing loops
    scope = [a for a in L.fr.entry_args if z3.is_expr(a) and a.sort() == BV64]
    for hh, body in L.fr.fn.loops.items():
        if hh != L.h and L.h in body:
            scope += [L.fr.env[I.res] for I in L.fr.fn.blocks[hh] if I.op == 'phi' and I.res in L.fr.env and z3.is_expr(L.fr.env[I.res]) and L.fr.env[I.res].sort() == BV64]
    L.scope = scope
    outer = [I.res for hh, body in L.fr.fn.loops.items() if hh != L.h and L.h in body for I in L.fr.fn.blocks[hh] if I.op == 'phi' and z3.is_expr(L.fr.env.get(I.res))]
    if outer:
        for n in ptrs:
            if E[n].get_id() in c.walkinfo or L.hv[n].get_id() in c.walkinfo or isval(E[n]): continue
            for r in ('rank', 'preord'):
                f = lambda p, r=r: c.uf(r, [BV64, z3.IntSort()], p)
                out.append(('%s: %s not above entry' % (pos(n), r), lambda v, m, e, n=n, f=f: Or(Eq(v[n], bv(0)), And(Ne(E[n], bv(0)), f(v[n]) <= f(E[n])))))
    alltails = list(tails)
    for T in (con.stails if con else []):
        for x in scope:
            n = T.__code__.co_argcount - 2
            alltails.append((lambda h, p, T=T, x=x: T(h, x, p)) if n == 1 else (lambda h, p, q, T=T, x=x: T(h, x, p, q)))
    if c.opts.get('shift'): alltails += shifted(L, alltails)
    # tail equations
    for ti, T in enumerate(alltails):
        ar = T.__code__.co_argcount - 1 - len(T.__defaults__ or ())
        for combo in itertools.permutations([n for n in ptrs if L.hv[n].get_id() not in c.walkinfo or getattr(T, 'strings', False)], ar):
            ps = ','.join(map(pos, combo))
            def ab(v, m, T=T, combo=combo):
                return T(Heap(c, m), *[v[x] for x in combo]), T(Heap(c, L.mem0), *[E[x] for x in combo])
            def f(v, m, e, ab=ab):
                a, b = ab(v, m)
                return Iff(a, b) if (isinstance(a, bool) or z3.is_bool(a)) else Eq(a, b)
            out.append(('tail%d(%s)' % (ti, ps), f))
            for k in bools + [x for x in ints if x not in combo and z3.is_bv_sort(sorts[x]) and sorts[x].size() in (8, 32, 64)]:
                if k in ptrs and sorts[k].size() == 64 and not isval(E[k]): continue
                def g(v, m, e, k=k, ab=ab):
                    a, b = ab(v, m)
                    if isinstance(a, bool) or z3.is_bool(a):
                        x, y = (v[k], E[k]) if z3.is_bool(v[k]) else (Ne(v[k], bv(0, v[k].size())), Ne(E[k], bv(0, E[k].size())))
                        return Iff(Or(x, a), Or(y, b))
                    if z3.is_bv(a) and z3.is_bv(v[k]) and a.size() == v[k].size(): return Eq(v[k] + a, E[k] + b)
                    return None
                out.append(('acc%d(%s,%s)' % (ti, ps, pos(k)), g))
                def g2(v, m, e, k=k, ab=ab):
                    a, b = ab(v, m)
                    if isinstance(a, bool) or z3.is_bool(a):
                        x, y = (v[k], E[k]) if z3.is_bool(v[k]) else (Ne(v[k], bv(0, v[k].size())), Ne(E[k], bv(0, E[k].size())))
                        return Iff(And(x, a), And(y, b))
                    return None
                out.append(('accand%d(%s,%s)' % (ti, ps, pos(k)), g2))
    if con and con.loopsum:
        for i, n in enumerate(ptrs):
            if c.opts.get('persist'):
                T0 = c.region(L.mem0, ('tag',))
                out.append((pos(n) + ' is new in the loop', lambda v, m, e, n=n, T0=T0: Or(Eq(v[n], bv(0)), c.select(T0, v[n]) == 0)))
            out.append((pos(n) + ' is new', lambda v, m, e, n=n: Or(Eq(v[n], bv(0)), c.tag0(v[n]) == 0)))
            for st in con.ptr_types: out.append((pos(n) + ':null or memory for ' + st, lambda v, m, e, n=n, st=st: Or(Eq(v[n], bv(0)), c.okaccess(m, v[n], st))))
            for st in con.ptr_types: 
                if st in LINKS:
                    out.append((pos(n) + ' ends ' + st, lambda v, m, e, n=n, st=st: Eq(Heap(c, m).f(v[n], st, 'next'), bv(0))))
                    out.append((pos(n) + ' null or ends ' + st, lambda v, m, e, n=n, st=st: Or(Eq(v[n], bv(0)), Eq(Heap(c, m).f(v[n], st, 'next'), bv(0)))))
            for k in ptrs[:i]: out.append(('%s null like %s' % (pos(n), pos(k)), lambda v, m, e, n=n, k=k: Iff(Eq(v[n], bv(0)), Eq(v[k], bv(0)))))
    # 0/1-valued ints
    for k in ints:
        if sorts[k].size() in (8, 32):
            out.append((pos(k) + ' in {0,1}', lambda v, m, e, k=k: z3.ULE(v[k], bv(1, v[k].size()))))
    # string walkers stay inside their string
    for n in ptrs:
        w = c.walkinfo.get(L.hv[n].get_id())
        if w is None: continue
        def rel(v, m, n=n, w=w, strict=False):
            S = c.strof(m, w[0])
            def one(x):
                if isval(x) and x.as_long() == 0: return TRUE
                o = z3.simplify(x - w[0])
                return z3.ULT(o, c.slen(S)) if strict else z3.ULE(o, c.slen(S))
            def go(x):
                if z3.is_app_of(x, z3.Z3_OP_ITE) and x.get_id() not in c.origin: return Ite(x.arg(0), go(x.arg(1)), go(x.arg(2)))
                return one(x)
            return go(v[n])
        def fwd(v, m, e, n=n, w=w):
            oe = z3.simplify(E[n] - w[0])
            def go(x):
                if isval(x) and x.as_long() == 0: return TRUE
                if z3.is_app_of(x, z3.Z3_OP_ITE) and x.get_id() not in c.origin: return Ite(x.arg(0), go(x.arg(1)), go(x.arg(2)))
                return z3.UGE(z3.simplify(x - w[0]), oe)
            return TRUE if e else go(v[n])
        if E[n].get_id() in c.origin or E[n].eq(w[0]): out.append((pos(n) + ' moves forward in its string', fwd))
        out.append((pos(n) + ' inside its string', lambda v, m, e, rel=rel: rel(v, m)))
        out.append((pos(n) + ' before the end of its string', lambda v, m, e, rel=rel: rel(v, m, strict=True)))
    # contract-specific candidates
    if con:
        for nm, f in con.inv:
            na = f.__code__.co_argcount - 3
            for combo in itertools.permutations(names + (outer if na > 1 else []), na):
                if not any(x in names for x in combo): continue
                def g(v, m, e, f=f, combo=combo):
                    L.combo = combo; L.is_entry = e
                    try: return f(Heap(c, m), A, L, *[v[x] if x in names else L.fr.env[x] for x in combo])
                    except (z3.Z3Exception, AttributeError, TypeError, KeyError): return None
                out.append((nm + '(' + ','.join(pos(x) if x in names else 'outer %s' % x for x in combo) + ')', g))
        for nm, f in con.meminv:
            out.append((nm, lambda v, m, e, f=f: f(Heap(c, m), A, L)))
    return out

LINKS = dict(string_list=('next',), policy_node=('next', 'prev', 'parent', 'first_child'), check_node=('next',))
def shifted(L, tails):
    """one-pointer tails composed with the link the loop follows"""
    c = L.c; used = set()
    for b in L.body:
        for I in L.fr.fn.blocks[b]:
            if I.op == 'gep' and I.x.k == 'struct' and I.x.name and len(I.a) == 3 and I.a[2].k == 'int':
                st = I.x.name.split('.', 1)[1]
                if st not in LINKS: continue
                d = I.x if I.x.el is not None else c.prog.type(L.fr.fn.mod, I.x.name)
                nm = c.fieldname(st, I.a[2].v, c.offset(L.fr.fn.mod, d, I.a[2].v)[0])
                if nm in LINKS[st]: used.add((st, nm))
    out = []
    for T in tails:
        if T.__code__.co_argcount - 1 - len(T.__defaults__ or ()) != 1 or getattr(T, 'strings', False): continue
        for st, nm in sorted(used):
            def g(h, p, T=T, st=st, nm=nm): return T(h, If(isz0(p), 0, lambda: h.f(p, st, nm)))
            out.append(g)
    return out
def isz0(x): return Eq(x, 0)

def variant_candidates(L, hv, bv_):
    c = L.c; out = []
    rank = lambda p: c.uf('rank', [BV64, z3.IntSort()], p)
    for I in L.phis:
        n = I.res; a, b = hv[n], bv_[n]
        if a.sort() == BV64:
            out.append(('rank', And(Ne(a, bv(0)), Or(Eq(b, bv(0)), rank(b) < rank(a)))))
            out.append(('pos', And(Ne(a, bv(0)), Or(Eq(b, bv(0)), c.uf('pos', [BV64, z3.IntSort()], b) < c.uf('pos', [BV64, z3.IntSort()], a)))))
            out.append(('parent-rank', And(Ne(a, bv(0)), Or(Eq(b, bv(0)), c.uf('depth', [BV64, z3.IntSort()], b) < c.uf('depth', [BV64, z3.IntSort()], a)))))
            out.append(('preorder', And(Ne(a, bv(0)), Or(Eq(b, bv(0)), And(c.uf('preord', [BV64, z3.IntSort()], b) < c.uf('preord', [BV64, z3.IntSort()], a), c.uf('preord', [BV64, z3.IntSort()], a) >= 0)))))
            out.append(('slen', And(Ne(a, bv(0)), Or(Eq(b, bv(0)), z3.ULT(c.slen(c.strof(L.memb, b)), c.slen(c.strof(L.mem1, a)))))))
        w = c.walkinfo.get(a.get_id()) if a.sort() == BV64 else None
        if w is not None:
            S0, S1 = c.strof(L.mem1, w[0]), c.strof(L.memb, w[0])
            def wv(x):
                if isval(x) and x.as_long() == 0: return TRUE
                if z3.is_app_of(x, z3.Z3_OP_ITE) and x.get_id() not in c.origin: return Ite(x.arg(0), wv(x.arg(1)), wv(x.arg(2)))
                o = z3.simplify(x - w[0])
                return And(z3.UGT(o, w[1]), z3.ULE(o, c.slen(S1)), c.slen(S0) == c.slen(S1))
            out.append(('walk', wv(b)))
        if z3.is_bv(a):
            out.append(('increasing', z3.And(z3.UGT(b, a))))
            out.append(('decreasing', z3.And(z3.ULT(b, a))))
    con = c.root_contract
    if con:
        for f in con.variants:
            v0, v1 = f(Heap(c, L.mem1), c.root_args, hv), f(Heap(c, L.memb), c.root_args, bv_)
            if v0 is not None: out.append(('spec variant', And(v1 >= 0, v1 < v0) if z3.is_int(v0) else z3.ULT(v1, v0)))
    return out
