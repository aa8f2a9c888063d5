"""Decide one property: verify every contract it rests on; on failure look for a concrete failing input."""
import sys, os, time, json, importlib, traceback, hashlib, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import multiprocessing as mp
from contract import *
import specs.common as K
MODS = ['common', 'te']
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load():
    for m in sorted(f[:-3] for f in os.listdir(os.path.join(VER, 'vf', 'specs')) if f.endswith('.py') and f not in ('__init__.py', 'tables.py')):
        importlib.import_module('specs.' + m)

def kid(k): return k.name + (('[' + k.label + ']') if k.label else '')

def worker(k, conn, scale):
    try:
        r = verify(PROG, K.C, k, timeout=int(15000 * scale), htimeout=int(1500 * scale))
        d = dict(fn=r.fn, obls=r.obls, error=r.error, failed=r.failed, vacuous=r.vacuous, wall=r.wall, solver=r.solver_time, rounds=r.rounds, info=r.info)
    except BaseException as e:
        d = dict(fn=kid(k), obls=[], error='verifier error: %r %s' % (e, traceback.format_exc()[-600:]), failed=[], vacuous=None, wall=0, solver=0, rounds=0, info={})
    conn.send(d); conn.close(); os._exit(0)

def run_all(ks, scale=1.0, budget=600, workers=8):
    """verify contracts in forked workers, following the contracts they use"""
    t0 = time.time(); todo = list(ks); seen = {kid(k) for k in todo}; live = []; out = {}
    while todo or live:
        while todo and len(live) < workers:
            k = todo.pop(0); a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(k, b, scale)); p.start(); b.close(); live.append((p, a, k, time.time()))
        ready = mp.connection.wait([x[1] for x in live], timeout=2)
        for x in list(live):
            p, a, k, ts = x
            d = None
            if a in ready:
                try: d = a.recv()
                except EOFError: d = dict(fn=kid(k), obls=[], error='verifier process ended (resources)', failed=[], vacuous=None, wall=time.time() - ts, solver=0, rounds=0, info={})
            elif time.time() - t0 > budget:
                p.kill(); d = dict(fn=kid(k), obls=[], error='verifier time budget exceeded', failed=[], vacuous=None, wall=time.time() - ts, solver=0, rounds=0, info={})
            if d is not None:
                p.join(); live.remove(x); out[kid(k)] = (k, d)
                for n in d['info'].get('contracts', []):
                    c2 = K.C.get(n)
                    if c2 is not None and not c2.trusted and kid(c2) not in seen and not c2.external:
                        seen.add(kid(c2)); todo.append(c2)
    return out

def search_all(bad, seed, tlimit):
    """concrete counterexample search for failed contracts, in parallel"""
    import cx, gen
    try: nat = cx.Native(PROG)
    except Exception as e: return {}, 'native build failed: %s' % e
    found = {}; ran = {}
    procs = []
    def go(k, sd, tl, conn):
        os.setpgid(0, 0)
        try:
            if k.__dict__.get('searcher'): r = k.searcher(PROG, nat, sd, tl)
            else: r = cx.search(k, nat, k.gen or gen.by_types(k), sd, tl)
        except BaseException as e: r = (dict(error=repr(e) + traceback.format_exc()[-600:]), 0)
        try: conn.send(r)
        except Exception: pass
        conn.close(); os._exit(0)
    per = max(1, 8 // max(1, len(bad)))
    for k in bad:
        for j in range(per):
            a, b = mp.Pipe(False); p = mp.Process(target=go, args=(k, seed * 100 + j, tlimit * (1 if len(bad) <= 8 else max(.3, 8 / len(bad))), b)); p.start(); b.close(); procs.append((p, a, k))
    err = []
    t0 = time.time()
    while procs and time.time() - t0 < tlimit + 30:
        ready = mp.connection.wait([x[1] for x in procs], timeout=1)
        for x in list(procs):
            p, a, k = x
            if kid(k) in found and a not in ready: p.kill(); p.join(); procs.remove(x); continue
            if a in ready:
                try: r, n = a.recv()
                except EOFError: r, n = None, 0
                ran[kid(k)] = ran.get(kid(k), 0) + n; p.join(); procs.remove(x)
                if r and 'error' in r: err.append(kid(k) + ': ' + r['error'][:600])
                elif r: found.setdefault(kid(k), r)
    for p, a, k in procs: p.kill()
    return found, dict(ran=ran, errors=err)

def run_bounded(ks, seed, mult):
    """fixed number of generated cases per stand-in, run on the compiled code"""
    import cx, gen
    out, found, procs = {}, {}, []
    try: nat = cx.Native(PROG)
    except Exception as e: return {kid(k): dict(bound=k.bounded, cases_run=0, note='not run: %s' % str(e)[:200]) for k in ks}, {}
    def go(k, i, per, conn):
        ran = 0; r = None; err = None
        for j in range(per):
            st, cur, info, n = cx.batch(k, nat, None, seed * 1000003 + (i * per + j) * 150, 150, 60); ran += n
            if st == 'violation': r = dict(info, seed=cur, kind='bounded check failed on the real code'); break
            if st == 'crash': r = dict(obligation='%s: memory safety' % k.name, seed=cur, kind='real code crashed', actual=info, input='seed %s' % cur); break
            if st == 'error': err = info
        conn.send((r, ran, err)); conn.close(); os._exit(0)
    for k in ks:
        for i in range(4):
            a, b = mp.Pipe(False); p = mp.Process(target=go, args=(k, i, max(1, k.cases * mult // 600), b)); p.start(); b.close(); procs.append((p, a, k))
    for p, a, k in procs:
        d = out.setdefault(kid(k), dict(bound=k.bounded, cases_run=0))
        try:
            if a.poll(200): r, n, err = a.recv()
            else: r, n, err = None, 0, 'timeout'
        except EOFError: r, n, err = None, 0, 'ended'
        p.kill(); p.join(); d['cases_run'] += n
        if err: d['note'] = str(err)[:300]
        if r: found.setdefault(kid(k), r)
    return out, found

def known_findings():
    f = os.path.join(VER, 'known-findings.txt'); out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding:\s*property=(\S+)\s+contract=(\S+)\s+obligation="([^"]*)"\s*(.*)', l)
                if m: out.append(m.groups())
    return out

def main():
    global PROG
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    load()
    ks = K.PROPS.get(prop)
    if not ks: print('no contracts for', prop); sys.exit(2)
    evp = os.path.join(VER, 'evidence', prop + '.json'); os.makedirs(os.path.dirname(evp), exist_ok=True)
    viol = []   # (what, detail dict)
    try: PROG = Program()
    except ExtractError as e:
        rd = os.path.join(VER, 'replay'); os.makedirs(rd, exist_ok=True); path = os.path.join(rd, prop + '-extraction.json')
        json.dump(dict(property=prop, failed_obligations=[dict(name='the sources can be compiled and translated', detail=str(e)[:4000])]), open(path, 'w'), indent=1)
        print('extraction failed: %s' % str(e)[:2000])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)); sys.exit(1)
    t1 = time.time()
    res = run_all(ks, 1.0, 480)
    bad = [(k, d) for k, d in res.values() if d['error'] or d['failed'] or d['vacuous']]
    retried = []
    if bad and time.time() - t0 < 420:      # rule out solver resource limits before reporting
        soft = [k for k, d in bad if not d['error'] or 'budget' in d['error'] or 'resources' in d['error']]
        if soft:
            retried = [kid(k) for k in soft]
            r2 = run_all(soft, 3.0, min(300, 560 - (time.time() - t0)))
            for n, (k, d) in r2.items():
                if n in res and (d['error'] and not res[n][1]['error']): continue
                res[n] = (k, d)
        bad = [(k, d) for k, d in res.values() if d['error'] or d['failed'] or d['vacuous']]
    kf = known_findings(); known = []
    rep = []; bnd = {}; bfound = {}
    if K.BOUNDED.get(prop):          # bounded stand-ins for functions out of the verifier's reach; never counted as proved
        bnd, bfound = run_bounded(K.BOUNDED[prop], seed, 4 if tier == 'thorough' else 1)
    for k, d in bad:
        f2 = []
        for o in d['failed']:
            hit = [x for x in kf if x[0] == prop and x[1] == kid(k) and x[2] in o['name']]
            if hit: known.append((kid(k), o['name'], hit[0][3]))
            else: f2.append(o)
        if f2 or d['error'] or d['vacuous']: rep.append((k, d, f2))
    for n, o, txt in sorted({(x[0], x[2], x[2]) for x in known}): print('KNOWN-FINDING: property=%s %s: %s' % (prop, n, txt))
    for k in K.BOUNDED.get(prop, []):
        if kid(k) in bfound:
            o = dict(name=bfound[kid(k)].get('obligation', kid(k)), status='bounded check failed', line=None, detail='', kind='bounded', backend=None)
            if not any(x[0] == prop and x[1] == kid(k) and x[2] in o['name'] for x in kf): rep.append((k, dict(error=None, vacuous=None), [o]))
    if rep:
        left = max(20, min(150 if tier == 'quick' else 300, 840 - (time.time() - t0)))
        todo = [k for k, d, f in rep if kid(k) not in bfound]
        found, info = search_all(todo, seed, left) if todo and not bfound else ({}, {})
        found = dict(found, **bfound)
        rd = os.path.join(VER, 'replay'); os.makedirs(rd, exist_ok=True)
        order = sorted(rep, key=lambda x: kid(x[0]) not in found)
        k, d, f2 = order[0]
        path = os.path.join(rd, '%s-%s.json' % (prop, kid(k).replace('/', '_').replace('[', '-').replace(']', '')))
        doc = dict(property=prop, function=kid(k), failed_obligations=[dict(function=kid(kk), name=o['name'], status=o['status'], line=o['line'], solver=o['detail']) for kk, dd, ff in order for o in ff][:60],
                   errors=[dict(function=kid(kk), error=dd['error'] or dd['vacuous']) for kk, dd, ff in order if dd['error'] or dd['vacuous']],
                   failing_input=found.get(kid(k)), search=info, replay='VF_REPO=/repo python3-vt %s/vf/replay.py %s' % (VER, path))
        json.dump(doc, open(path, 'w'), indent=1, default=str)
        for kk, dd, ff in order:
            for o in ff[:6]: print('FAILED obligation: %s (%s)%s %s' % (o['name'], o['status'], ' line %s' % o['line'] if o['line'] else '', (o['detail'] or '')[:160]))
            if dd['error'] or dd['vacuous']: print('FAILED %s: %s' % (kid(kk), (dd['error'] or dd['vacuous'])[:400]))
        if kid(k) in found:
            fi = found[kid(k)]
            print('failing input: %s' % json.dumps(fi, default=str)[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    obls = [o for k, d in res.values() for o in d['obls']]
    ok = [o for o in obls if o['status'] == 'proved']
    be = {}
    for o in ok: be[o['backend'] or 'z3'] = be.get(o['backend'] or 'z3', 0) + 1
    trusted = sorted({n for k, d in res.values() for n in d['info'].get('contracts', []) if n in K.C and K.C[n].trusted})
    ext = sorted({n for k, d in res.values() for n in d['info'].get('externs', [])})
    ev = dict(property=prop, tier=tier, seed=seed, level=K.LEVEL.get(prop, 'proof'), wall_s=round(time.time() - t0, 2), violations=1 if rep else 0,
        coverage=dict(obligations=len(obls), discharged=len(ok), checker_cmd='python3-vt %s/vf/check.py %s' % (VER, prop),
            functions_under_contract=sorted(n for n in res), inlined_functions=sorted({n for k, d in res.values() for n in d['info'].get('inlined', [])}),
            discharged_by_backend=be, solver_seconds=round(sum(d['solver'] for k, d in res.values()), 2), loop_invariant_rounds={n: d['rounds'] for n, (k, d) in res.items()},
            obligation_kinds={kd: sum(1 for o in obls if o['kind'] == kd) for kd in sorted({o['kind'] for o in obls})},
            per_function={n: dict(obligations=len(d['obls']), proved=sum(1 for o in d['obls'] if o['status'] == 'proved'), seconds=round(d['wall'], 2), precondition_cover=d['info'].get('pre_cover'), exit_cover=d['info'].get('exit_cover')) for n, (k, d) in sorted(res.items())},
            retried_with_larger_limits=retried, bounded_checks_not_counted_as_proved=bnd, extraction_seconds=round(t1 - t0, 2),
            trusted_base=['LLVM/clang 18 front end and the sroa, loop-simplify and lcssa passes', 'the verification-condition generator in /verif/vf', 'z3 (and cvc5 where named)'] +
                ['assumed contract: %s (%s)' % (n, K.C[n].why) for n in trusted] + ['assumed libc/uthash specification: ' + n for n in ext]),
        assumptions=K.ASSUME + K.PASSUME.get(prop, []))
    json.dump(ev, open(evp, 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d functions in %.1fs' % (prop, len(ok), len(obls), len(res), time.time() - t0))
    sys.exit(1 if rep else 0)

if __name__ == '__main__': main()
