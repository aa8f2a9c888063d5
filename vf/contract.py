"""Contracts, verification of one function against its contract, Houdini driver, discharge."""
import time, os, sys, json, traceback
from sx import *
from exec import *

class Contract:
    def __init__(s, name, pre=None, value=None, post=None, modifies=(), tails=(), inv=(), meminv=(), variants=(),
                 ptr_types=('string_list', 'policy_node', 'char'), inline=False, external=False, noreturn=False,
                 fresh_ret=None, opts=None, no_term=False, label='', effects=None, nonnull=(), trusted=False, why='',
                 ghost_pure=False, setup=None, final=None, gen=None, fuel=0, ret=None, stails=(), optional=False, searcher=None, case=None, loopsum=()):
        s.__dict__.update(locals()); del s.__dict__['s']
        s.tails, s.inv, s.meminv, s.variants = list(tails), list(inv), list(meminv), list(variants)
    def apply(s, c, mem, args, pc, line, who, rty):
        h = Heap(c, mem)
        for lab, f in s.pres(h, args):
            c.oblige('%s: precondition of %s: %s' % (who, s.name, lab), 'pre', pc, f, line)
        mem0 = dict(mem); h = Heap(c, mem0)
        if s.effects is not None:
            r = s.effects(c, mem, pc, *args)
            if r is not None: return r
        else:
            for m in s.mods(h, args):
                r, where = m[0], m[1]
                if where == '*':
                    old = c.region(mem, r); c.setregion(mem, r, c.havoc_region(r))
                elif where == 'fresh':
                    old = c.region(mem, r); c.setregion(mem, r, c.frame_fresh(old, c.region(mem0, ('tag',))))
                elif where == 'val':
                    old = c.region(mem, r); c.setregion(mem, r, z3.FreshConst(old.sort(), 'hv'))
                else:
                    a = c.region(mem, r)
                    for p in where:
                        a = z3.Store(a, p, z3.FreshConst(a.sort().range(), 'm'))
                    c.setregion(mem, r, a)
        rv = None
        if s.value is not None:
            rv = s.value(h, *args)
            rv = c.coerce(rv, c.sort_of(rty))
            if z3.is_bool(rv) and rty.n != 1: rv = z3.If(rv, bv(1, rty.n), bv(0, rty.n))
        elif s.fresh_ret is not None:
            st, nullable = s.fresh_ret
            p = c.malloc(mem, None, pc, st)
            rv = p
            if nullable:
                b = c.fresh('isnull', z3.BoolSort()); rv = z3.If(b, bv(0), p)
        elif rty.k != 'void':
            rv = c.fresh('ret:' + s.name, c.sort_of(rty))
        if s.post is not None:
            for lab, f in s.posts(h, Heap(c, mem), rv, args): c.assume(pc, f)
        return rv
    def pres(s, h, args):
        out = []
        for i in s.nonnull:
            out.append(('argument %d is not null' % i, Ne(args[i], bv(0)) if z3.is_expr(args[i]) else args[i] != 0))
        if s.pre: out += s.pre(h, *args)
        return out
    def posts(s, h0, h1, r, args):
        return s.post(h0, h1, r, *args) if s.post else []
    def mods(s, h, args):
        return s.modifies(h, *args) if callable(s.modifies) else list(s.modifies)

class Result:
    def __init__(s): s.fn = ''; s.obls = []; s.error = None; s.wall = 0; s.failed = []; s.vacuous = None; s.info = {}; s.rounds = 0; s.solver_time = 0

def setup_args(c, con, fn):
    pts = c.prog.param_types(fn)
    args = []
    for i, (n, t) in enumerate(fn.params):
        a = z3.Const('arg%d' % i, c.sort_of(t))
        args.append(a)
        if t.k == 'ptr' and pts and i + 1 < len(pts):
            d = pts[i + 1]
            type_fact(c, a, d)
    return args

def type_fact(c, a, d):
    if d[0] == 'ptr':
        e = d[1]
        if e[0] == 'struc' and e[1] and e[1] in c.prog.structs:
            c.axiom(Or(a == 0, c.valid({}, a, e[1])))
        elif e == ('base', 'char'):
            c.axiom(Or(a == 0, c.valid({}, a, 'char')))
        elif e[0] == 'ptr' or e[0] in ('base', 'enum'):
            c.axiom(Or(a == 0, c.valid({}, a, 'cell')))
        if e[0] in ('ptr', 'base', 'enum') and e != ('base', 'void') or e[0] == 'struc' and e[1] and e[1] in c.prog.structs:
            c.oldids.add(a.get_id()); c.keep.append(a)      # null or an object that exists: never one allocated later
        c.axiom(z3.ULT(a, bv(1 << 47)))
        c.axiom(Or(a == 0, z3.UGT(a, bv(1 << 32))) if e != ('base', 'char') else TRUE)

def build(prog, contracts, con, loopinv, extra_opts=None):
    """one symbolic run -> ctx with obligations"""
    opts = dict(con.opts or {}); opts.update(extra_opts or {})
    opts.setdefault('wf', GLOBALS.get('wf')); opts.setdefault('global_wf', GLOBALS.get('global_wf'))
    opts.setdefault('hash_wf', GLOBALS.get('hash_wf', lambda *a: None))
    if con.opts and 'inline' in con.opts:
        contracts = {k: v for k, v in contracts.items() if k not in con.opts['inline']}
    contracts = dict(contracts)
    if not opts.get('recursive'): contracts.pop(con.name, None)
    if 'contracts' in opts: contracts.update(opts['contracts'])
    c = Ctx(prog, contracts, opts)
    c.loopinv = loopinv; c.loopwrites = {}; c.variant_alts = {}; c.root_contract = con; c.bounded_cut = False
    c.axiom(c.tag0(bv(0)) == 0)
    c.extra_fuel = con.fuel
    ex = Exec(c)
    c.ex = ex
    if con.ghost_pure: 
        con.final(c, ex); return c
    fn = prog.find(con.name)
    if fn is None: raise Unsupported('function %s not found in /repo' % con.name)
    args = setup_args(c, con, fn)
    c.root_args = args
    mem = {}
    if con.setup: con.setup(c, mem, args)
    h0 = Heap(c, dict(mem))
    for lab, f in con.pres(h0, args): c.assume(TRUE, f)
    c.pre_nfacts = len(c.facts)
    mem_in = dict(mem)
    pc, mem1, rv = ex.call_fn(fn, args, TRUE, mem, fn.name, con)
    c.exit_pc, c.exit_mem, c.exit_ret = pc, mem1, rv
    h0, h1 = Heap(c, mem_in), Heap(c, mem1)
    if con.value is not None and rv is not None:
        v = con.value(h0, *args)
        v = c.coerce(v, rv.sort())
        if z3.is_bool(v) and not z3.is_bool(rv): v = z3.If(v, bv(1, rv.size()), bv(0, rv.size()))
        if isinstance(v, bool): v = z3.BoolVal(v)
        c.oblige('%s: result equals its specification' % con.name, 'post', pc, Iff(rv, v) if z3.is_bool(rv) else Eq(rv, v), None, then_assume=False)
    for lab, f in ([] if opts.get('_noposts') else con.posts(h0, h1, rv, args)):
        c.oblige('%s: %s' % (con.name, lab), 'post', pc, f, None, then_assume=False)
    if con.final: con.final(c, ex, mem_in, mem1, pc, rv, args)
    if not opts.get('noframe'): frame_obls(c, con, mem_in, mem1, pc, rv, args)
    return c

def frame_obls(c, con, m0, m1, pc, rv, args):
    mods = {}
    if con.effects is None:
        for m in con.mods(Heap(c, m0), args): mods.setdefault(m[0], []).append(m[1])
    else: return
    for r in sorted(m1, key=str):
        if r[0] in ('a', 'aa', 'ghost'): continue
        if r == ('tag',) or r[0] in c.opts.get('frame_skip', ()): continue
        if r[0] in ('g', 'ga') and not r[1].startswith('.'): continue   # state private to one source file
        old, new = c.region(m0, r), c.region(m1, r)
        if old.eq(new): continue
        w = mods.get(r, [])
        if '*' in w or 'val' in w: continue
        if z3.is_array(old) and old.sort().domain() == BV64:
            p = c.fresh('frame', BV64)
            ex = [p != q for ws in w if isinstance(ws, (list, tuple)) for q in ws]
            c.oblige('%s: leaves %s of existing objects unchanged%s' % (con.name, '.'.join(map(str, r)), ' (outside its frame)' if ex else ''),
                     'frame', pc, Implies(And([c.tag0(p) != 0] + ex), c.select(new, p) == z3.Select(old, p)), None, then_assume=False)
        else:
            c.oblige('%s: leaves %s unchanged' % (con.name, '.'.join(map(str, r))), 'frame', pc, old == new, None, then_assume=False)

GLOBALS = {}

def mk_solver(timeout):
    so = z3.Solver(); so.set('timeout', timeout)
    return so

RPS = 3000000      # solver resource units that correspond to roughly one second

def split_goal(g, pc):
    """goal under pc -> list of (extra path condition, subgoal)"""
    out = []
    def go(g, cond, d):
        if is_t(g): return
        if z3.is_and(g):
            for x in g.children(): go(x, cond, d)
        elif z3.is_app_of(g, z3.Z3_OP_ITE) and d < 6:
            go(g.arg(1), cond + [g.arg(0)], d + 1); go(g.arg(2), cond + [Not(g.arg(0))], d + 1)
        elif z3.is_or(g) and sum(1 for x in g.children() if z3.is_and(x) or z3.is_app_of(x, z3.Z3_OP_ITE)) == 1:
            k = [x for x in g.children() if z3.is_and(x) or z3.is_app_of(x, z3.Z3_OP_ITE)][0]
            go(k, cond + [Not(x) for x in g.children() if not x.eq(k)], d)
        else: out.append((cond, g))
    go(g, [], 0)
    return out

class Checker:
    def __init__(s, c): s.c = c; s.so = mk_solver(20000); s.n = 0; s.time = 0; s.log = []
    def sync(s):
        while s.n < len(s.c.axioms): s.so.add(s.c.axioms[s.n]); s.n += 1
    def check(s, nf, pc, goal, timeout, split=True):
        """timeout in ms, enforced as a deterministic resource limit"""
        c = s.c
        s.sync()
        t = time.time()
        so = s.so
        so.set('timeout', timeout * 8 + 2000); so.set('rlimit', timeout * (RPS // 1000))
        so.push()
        for f in c.facts[:nf]: so.add(f)
        if len(c.lits) > 1: so.add(z3.Distinct(list(c.lits.values())))
        so.add(pc)
        r, m, reason = z3.unsat, None, ''
        for cond, g in (split_goal(goal, pc) if split else [([], goal)]):
            so.push()
            for q in cond: so.add(q)
            so.add(z3.Not(g))
            r = so.check()
            if r == z3.sat: m = so.model()
            reason = so.reason_unknown() if r == z3.unknown else ''
            so.pop()
            if r != z3.unsat: break
        so.pop()
        s.time += time.time() - t
        return r, m, reason

def keys_of(c, f):
    memo = c.__dict__.setdefault('keymemo', {})
    k = f.get_id()
    if k not in memo:
        out = set(); st = [f]; seen = set()
        while st:
            e = st.pop(); i = e.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(e):
                if e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT): out.add(i)
                st += e.children()
        memo[k] = out; c.keep.append(f)
    return memo[k]
def top_keys(c, f):
    """uninterpreted applications not below another one: what the formula is about"""
    memo = c.__dict__.setdefault('topmemo', {})
    k = f.get_id()
    if k not in memo:
        out = set(); st = [f]; seen = set()
        while st:
            e = st.pop(); i = e.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(e):
                if e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
                    out.add(i)
                    if e.num_args() and e.decl().name() in ('slen', 'ch0'): st += e.children()
                else: st += e.children()
        memo[k] = out; c.keep.append(f)
    return memo[k]
def relevant_check(c, nf, pc, goal, depth, ms):
    """unsat from a part of the assumptions close to the goal is unsat"""
    pool = list(c.axioms) + list(c.facts[:nf])
    conj = []; st = [pc]
    while st:
        e = st.pop()
        if z3.is_and(e): st += e.children()
        else: conj.append(e)
    pool += conj
    cur = set(top_keys(c, goal)); chosen = []; left = pool
    for d in range(depth):
        nl = []; add = set()
        for f in left:
            k = top_keys(c, f)
            if k and (k <= cur or k & cur and (d > 0 or True)): chosen.append(f); add |= k
            elif not k: chosen.append(f)
            else: nl.append(f)
        left = nl
        if add <= cur: break
        cur |= add
    so = z3.Solver(); so.set('timeout', ms * 8); so.set('rlimit', ms * (RPS // 1000))
    for f in chosen: so.add(f)
    if len(c.lits) > 1: so.add(z3.Distinct(list(c.lits.values())))
    so.add(z3.Not(goal))
    return so.check() == z3.unsat, len(chosen), len(pool)
PORT = ({}, {'smt.restart_strategy': 0, 'smt.restart_factor': 1.5}, {'smt.random_seed': 7})
def portfolio(c, nf, pc, goal, slices):
    """fresh solvers with different strategies, each with a limit in ms"""
    r = z3.unknown, None, '', None
    for t in slices:
        for i in range(len(PORT)):
            for k, v in PORT[i].items(): z3.set_param(k, v)
            try: r = fresh_check(c, nf, pc, goal, t, limit=True)
            finally:
                for k in PORT[i]: z3.set_param(k, PDEF[k])
            if r[0] != z3.unknown: return r
    return r
PDEF = {'smt.case_split': 1, 'smt.restart_strategy': 1, 'smt.restart_factor': 1.1, 'smt.random_seed': 0}
def decide(c, pc, q, ms=1500):
    """path mode: whether q holds (True), fails (False) or is open (None) wherever pc holds"""
    if isinstance(q, bool): return q
    if is_t(q) or is_f(q): return is_t(q)
    if 'paths' not in c.opts: return None
    memo = c.__dict__.setdefault('decmemo', {}); k = (pc.get_id(), q.get_id(), len(c.facts))
    if k not in memo:
        ck = c.__dict__.setdefault('decck', None) or Checker(c); c.decck = ck; c.keep += [pc, q]
        r = None
        if ck.check(len(c.facts), pc, q, ms, split=False)[0] == z3.unsat: r = True
        elif ck.check(len(c.facts), pc, Not(q), ms, split=False)[0] == z3.unsat: r = False
        memo[k] = r
    return memo[k]
def canon(c, pc, X, ms=2500):
    """path mode: a text that the code looked at and that equals X wherever pc holds, or X"""
    ck = c.__dict__.setdefault('decck', None) or Checker(c); c.decck = ck
    memo = c.__dict__.setdefault('canmemo', {}); k = (pc.get_id(), X.get_id())
    if k not in memo:
        memo[k] = X; c.keep += [pc, X]; L = c.__dict__.get('strlog', {})
        if X.get_id() not in L:
            for K in list(L.values()):
                if ck.check(len(c.facts), pc, X == K, ms, split=False)[0] == z3.unsat: memo[k] = K; break
    return memo[k]
def fresh_check(c, nf, pc, goal, timeout, tactic=None, dump=None, limit=False):
    so = z3.Solver() if tactic is None else z3.Then(*tactic).solver()
    if limit: so.set('timeout', timeout * 8); so.set('rlimit', timeout * (RPS // 1000))
    else: so.set('timeout', timeout)
    for f in c.axioms: so.add(f)
    for f in c.facts[:nf]: so.add(f)
    if len(c.lits) > 1: so.add(z3.Distinct(list(c.lits.values())))
    so.add(pc); so.add(z3.Not(goal))
    if dump: open(dump, 'w').write(so.to_smt2())
    r = so.check()
    return r, (so.model() if r == z3.sat else None), (so.reason_unknown() if r == z3.unknown else ''), so

def specific(n):
    return n.startswith(('tail', 'acc')) or 'string' in n or not n.startswith(('phi', 'frame'))

def verify(prog, contracts, con, timeout=15000, htimeout=1500, verbose=False, max_rounds=40):
    """first with the invariant candidates of the contract, then with a larger candidate set"""
    if con.opts and 'paths' in con.opts: return verify_paths(prog, contracts, con, timeout, htimeout, verbose, max_rounds)
    r = verify1(prog, contracts, con, timeout, htimeout, verbose, max_rounds)
    if (r.failed or r.error) and r.info.get('loops') and con.tails:
        r2 = verify1(prog, contracts, con, timeout, htimeout, verbose, max_rounds, dict(shift=True))
        r2.wall += r.wall; r2.solver_time += r.solver_time; r2.rounds += r.rounds
        if not (r2.failed or r2.error or r2.vacuous): return r2
    return r

def verify_paths(prog, contracts, con, timeout, htimeout, verbose, max_rounds, workers=6):
    """one verification per path between the loops of the function (branches outside loops are decided one way per run; the runs cover all ways)"""
    import multiprocessing as mp
    tot = Result(); tot.fn = con.name + (('[' + con.label + ']') if con.label else ''); t0 = time.time()
    todo = [([], 0, {})]; live = []; feas = False; n = 0; limit = con.opts.get('max_paths', 400)
    def run(vec, skip, inv, conn):
        con.opts = dict(con.opts, paths=vec)
        r = verify1(prog, contracts, con, timeout, htimeout, verbose, max_rounds, dict(_skip=skip, _inv=inv))
        try: conn.send(r.__dict__)
        except Exception as e: conn.send(dict(error='path result: %r' % e, path=[], obls=[], info={}))
        conn.close(); os._exit(0)
    stop = False
    while (todo or live) and not stop:
        while todo and len(live) < workers:
            j = todo.pop(); a, b = mp.Pipe(False); pid = os.fork()
            if pid == 0: a.close(); run(j[0], j[1], j[2], b)
            b.close(); live.append((a, j, pid))
        for x in list(live):
            a, (vec, skip, inv), pid = x
            if not a.poll(.05): continue
            try: d = a.recv()
            except EOFError: d = dict(error='path worker ended', path=[], obls=[], info={})
            os.waitpid(pid, 0); live.remove(x); n += 1
            path = d.get('path') or []
            if verbose: print('  path', ''.join(str(k) for k, _ in path), 'from', skip, len(d.get('obls', [])), '%.1f' % d.get('wall', 0), d.get('error') or '', len(d.get('failed', [])), d.get('info', {}).get('exit_cover')); sys.stdout.flush()
            for i in range(max(0, len(vec)), len(path)):
                for alt in range(1, path[i][1]): todo.append(([k for k, _ in path[:i]] + [alt], i + 1, {k: v for k, v in d.get('loopinv', {}).items() if d['loopat'].get(k, 1 << 30) <= i}))
            for k in ('obls',): tot.obls += d.get(k, [])
            tot.solver_time += d.get('solver_time', 0); tot.rounds = max(tot.rounds, d.get('rounds', 0))
            if d.get('error'): tot.error = d['error']; stop = True
            if d.get('vacuous') and 'precondition' in d['vacuous']: tot.vacuous = d['vacuous']
            if d.get('info', {}).get('exit_cover') != 'unsat': feas = True
            for k, v in d.get('info', {}).items():
                if isinstance(v, list): tot.info[k] = sorted(set(tot.info.get(k, [])) | set(v))
                elif isinstance(v, dict): tot.info.setdefault(k, {}).update(v)
                else: tot.info[k] = v
            if n > limit: tot.error = 'more than %d paths' % limit; stop = True
            if any(o['status'] != 'proved' for o in d.get('obls', [])) and not verbose: stop = True
    for a, j, pid in live:
        try: os.kill(pid, 9); os.waitpid(pid, 0)
        except Exception: pass
    if not feas and not tot.error and not stop: tot.vacuous = 'no path of %s reaches its exit under the assumptions' % con.name
    if feas: tot.info['exit_cover'] = 'sat'
    tot.info['paths'] = n; tot.wall = time.time() - t0
    tot.failed = [o for o in tot.obls if o['status'] != 'proved']
    return tot

def verify1(prog, contracts, con, timeout=15000, htimeout=1500, verbose=False, max_rounds=40, extra=None):
    res = Result(); res.fn = con.name + (('[' + con.label + ']') if con.label else '')
    t0 = time.time()
    skip = (extra or {}).get('_skip'); loopinv = {k: set(v) for k, v in ((extra or {}).get('_inv') or {}).items()}
    if con.optional and not prog.has(con.name):
        res.info['absent'] = True; res.info.setdefault('contracts', []); return res
    try:
        while True:
            res.rounds += 1
            c = build(prog, contracts, con, loopinv, dict(extra or {}, _noposts=True) if 'paths' in (con.opts or {}) else extra)
            res.info['loops'] = len(loopinv)
            ck = Checker(c)
            if skip is not None:      # parts shared with a path already verified
                c.obls = [o for o in c.obls if o.nd >= skip]
            hob = [o for o in c.obls if o.kind == 'houdini']
            dropped = 0
            for o in hob:
                key, n = o.hk
                if n in loopinv[key]: continue
                if is_t(o.goal): continue
                if is_f(o.goal): r = z3.sat
                else:
                    tt = time.time()
                    r, m, why = ck.check(o.nfacts, o.pc, o.goal, (htimeout * 6 if specific(n) else htimeout // 3))
                    if r == z3.unknown and specific(n) and 'paths' in c.opts and any(relevant_check(c, o.nfacts, o.pc, o.goal, d, 3000)[0] for d in (1, 2, 3)): r = z3.unsat
                    if r == z3.unknown and specific(n) and 'paths' in c.opts and not n.endswith('of its string'): r = portfolio(c, o.nfacts, o.pc, o.goal, (htimeout * 4,))[0]
                    elif r == z3.unknown and specific(n): r = fresh_check(c, o.nfacts, o.pc, o.goal, htimeout * 4, limit=True)[0]
                    ck.log.append((time.time() - tt, o.name, str(r)))
                if r != z3.unsat:
                    loopinv[key].add(n); dropped += 1
                    if verbose: print('   drop', o.name, r)
            res.solver_time += ck.time
            res.hlog = getattr(res, 'hlog', []) + ck.log
            if not dropped or res.rounds > max_rounds: break
        if 'paths' in c.opts:
            c = build(prog, contracts, con, loopinv, extra)
            if skip is not None: c.obls = [o for o in c.obls if o.nd >= skip]
        ck = Checker(c)
        # vacuity: the precondition must be satisfiable
        r, m, why = ck.check(getattr(c, 'pre_nfacts', 0), TRUE, FALSE, 5000)
        if r == z3.unsat: res.vacuous = 'precondition of %s is contradictory' % con.name
        res.info['pre_cover'] = str(r)
        for o in c.obls:
            if o.kind == 'houdini': o.status = 'proved'; o.backend = 'z3'; continue
            t = time.time()
            if o.kind == 'lemma' and o.hk and o.hk[0] == 'local':      # from the stated premises alone (each an axiom or proved before)
                so = z3.Solver(); so.set('timeout', timeout); so.set('rlimit', 10 * RPS); so.add(o.hk[1]); so.add(z3.Not(o.goal)); r = so.check()
                o.time = time.time() - t; o.backend = 'z3'
                if r == z3.unsat: o.status = 'proved'; continue
            if o.status == 'trivial': o.status = 'proved'; o.backend = 'simplifier'; continue
            if o.kind == 'variant':
                ok = False
                alts = c.variant_alts.get(o.goal.get_id(), [])
                if 'paths' in c.opts:
                    for nm, g in alts:
                        if any(relevant_check(c, o.nfacts, o.pc, g, d, 1000)[0] for d in (1, 2)): ok = True; o.detail = nm; break
                for nm, g in ([] if ok else alts):
                    r, m, why = ck.check(o.nfacts, o.pc, g, timeout)
                    if r == z3.unsat: ok = True; o.detail = nm; break
                o.status = 'proved' if ok else 'failed'; o.backend = 'z3'; o.time = time.time() - t
                if not ok: o.detail = 'no variant found'
                continue
            if 'paths' in c.opts and o.kind != 'frame' and any(relevant_check(c, o.nfacts, o.pc, o.goal, d, 2000)[0] for d in (1, 2)):
                o.status = 'proved'; o.backend = 'z3(part)'; o.time = time.time() - t; continue
            r, m, why = ck.check(o.nfacts, o.pc, o.goal, timeout if skip is None and 'paths' not in c.opts else timeout // 4)
            o.backend = 'z3'
            if r == z3.unknown and 'paths' in c.opts:
                r, m, why, so = portfolio(c, o.nfacts, o.pc, o.goal, (timeout // 2, timeout * 2))
                o.backend = 'z3(fresh)'
            elif r == z3.unknown:
                r, m, why, so = fresh_check(c, o.nfacts, o.pc, o.goal, timeout * 2)
                o.backend = 'z3(fresh)'
                if r == z3.unknown:
                    r2 = cvc5_check(so, 30)
                    if r2 == 'unsat': r = z3.unsat; o.backend = 'cvc5'
            o.time = time.time() - t
            if r == z3.unsat: o.status = 'proved'
            elif r == z3.sat:
                o.status = 'failed'; o.detail = model_str(c, m)
            else: o.status = 'unknown'; o.detail = 'solver: ' + why
            if verbose and o.status != 'proved': print('   ', o.status, o.name, o.line and o.line[1] and prog.line(o.line[0], o.line[1]))
        # reachability of the exit
        if hasattr(c, 'exit_pc'):
            r, m, why = ck.check(len(c.facts), c.exit_pc, FALSE, 5000)
            res.info['exit_cover'] = str(r)
            if r == z3.unsat and not con.noreturn and skip is None: res.vacuous = res.vacuous or 'no path of %s reaches its exit under the assumptions' % con.name
        res.solver_time += ck.time
        for o in c.obls:
            ln = None
            if o.line and o.line[1]: ln = prog.line(o.line[0], o.line[1])
            res.obls.append(dict(name=o.name, kind=o.kind, status=o.status, time=round(o.time, 3), detail=o.detail, line=ln, backend=o.backend))
        res.info['inlined'] = sorted(c.inlined); res.info['contracts'] = sorted(c.contracts_used); res.info['externs'] = sorted(c.externs_used)
        res.info['invariants'] = {k: None for k in loopinv}
        if con.opts and 'paths' in con.opts: res.path = c.chosen; res.loopat = c.loopat; res.loopinv = loopinv
    except (Unsupported, ExtractError) as e:
        res.error = 'unsupported: %s' % e
    except z3.Z3Exception as e:
        res.error = 'z3: %s\n%s' % (e, traceback.format_exc()[-1500:])
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, RecursionError) as e:
        res.error = 'internal: %s\n%s' % (e, traceback.format_exc()[-1500:])
    res.wall = time.time() - t0
    res.failed = [o for o in res.obls if o['status'] != 'proved']
    return res

def cvc5_check(so, tmo):
    import subprocess, tempfile
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + so.to_smt2())
        r = subprocess.run(['cvc5', '--tlimit=%d' % (tmo * 1000), f.name], capture_output=True, text=True, timeout=tmo + 5)
        os.unlink(f.name)
        return r.stdout.strip().split('\n')[-1]
    except Exception as e:
        return 'error'

def model_str(c, m):
    out = []
    try:
        for i, a in enumerate(getattr(c, 'root_args', [])):
            out.append('arg%d=%s' % (i, m.eval(a, True)))
        rv = getattr(c, 'exit_ret', None)
        if rv is not None: out.append('ret=%s' % m.eval(rv, True))
    except z3.Z3Exception: pass
    return ', '.join(out)
