"""concrete counterpart of the call-trace contracts (used only to find a failing input)"""
import ctypes, os, tempfile
import gen
from gen import CH
libc = ctypes.CDLL(None)
CB = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_uint64, ctypes.c_uint64)
def captured(f):
    libc.fflush(None); old = os.dup(1); t = tempfile.TemporaryFile(); os.dup2(t.fileno(), 1)
    try: r = f(); libc.fflush(None)
    finally: os.dup2(old, 1); os.close(old)
    t.seek(0); b = t.read(); t.close(); return r, b
def trace_case(con, nat, w):
    r = w.rng; h = CH(w); g = gen.G(w, [b'C-001'])
    mode = con.name
    if mode == 'call_checks' and nat.addr('call_checks_for_node_type') is None: mode = 'call_checks'
    root, node, nodes = g.tree(['NODE_AV_RULE', 'NODE_DECL', 'NODE_IF_CALL'])
    nodes = []
    def coll(n):
        while n:
            nodes.append((h.f(n, 'policy_node', 'flavor'), n)); coll(h.f(n, 'policy_node', 'first_child')); n = h.f(n, 'policy_node', 'next')
    coll(root)
    ids = [b'C-001', b'C-005', b'S-002', b'W-003', b'W-011', b'E-007', b'C-0011', b'W-0', b'E-009']
    for fl, n in nodes:
        w.set(n, 'policy_node', 'lineno', r.randrange(1, 500))
        if r.random() < .5: w.set(n, 'policy_node', 'exceptions', w.str(r.choice([b'', b' ', b', ', b'x ', b'-']).join(r.choice(ids + [b'foo', b'']) for i in range(r.choice([0, 1, 1, 2, 3])))))
    data = g.check_data(); got = []; want = []; lines = []; keep = []; cnt = {}
    seed = r.randrange(1 << 30)
    import random
    def outcome(k, fi, n):
        q = random.Random(seed * 1000003 + k * 101 + fi * 7 + n)
        if q.random() < .5: return None
        return (q.choice(b'CSWEF'), q.randrange(1, 12), b'msg%d' % q.randrange(1000))
    known = {n for fl, n in nodes}
    def norm(n, hh): return n if n in known else ('cleanup' if hh.f(n, 'policy_node', 'flavor') == w.E('NODE_CLEANUP') else 'other element of kind %d' % hh.f(n, 'policy_node', 'flavor'))
    def mk(fi):
        def f(d, n):
            k = len(got); x = norm(n, CH(w)); got.append((fi, d == data, x))
            o = outcome(k, fi, 0 if not isinstance(x, int) else x - w.lo)
            if not o: return 0
            return w.obj('check_result', severity=o[0], check_id=o[1], lineno=r.randrange(900, 999), message=o[2])
        cb = CB(f); keep.append(cb); return ctypes.cast(cb, ctypes.c_void_p).value
    fns = [mk(i) for i in range(5)]; idx = {a: i for i, a in enumerate(fns)}
    nfl = h.arrlen('checks', 'check_nodes'); reg = {}
    used = sorted({h.f(n, 'policy_node', 'flavor') for fl, n in nodes} | {w.E('NODE_CLEANUP')})
    heads = []
    for fl in range(nfl):
        l = [(r.randrange(5), r.choice(ids)) for i in range(r.choice([0, 1, 2, 3, 5]))] if fl in used or r.random() < .2 else []
        nx = 0; objs = []
        for fi, cid in reversed(l):
            nx = w.obj('check_node', check_function=fns[fi], check_id=cid, issues_found=r.randrange(5), next=nx); objs.insert(0, nx)
        reg[fl] = list(zip(l, objs)); heads.append(nx)
    ck = w.obj('checks', check_nodes=heads)
    sup = r.choice([0, 0, 1]); ctypes.c_int.from_address(nat.addr('suppress_output')).value = sup
    fi0 = r.choice([0, 0, 1]); ctypes.c_int.from_address(nat.addr('found_issue')).value = fi0
    cnt0 = {o: h.f(o, 'check_node', 'issues_found') for fl in reg for x, o in reg[fl]}
    cnt = dict(cnt0); found = fi0; disp = []
    def visit(n, fl, exc, line):
        nonlocal found
        for (fi, cid), o in reg[fl]:
            if exc is not None and cid in exc: continue
            x = n; out = outcome(len(want), fi, 0 if not isinstance(x, int) else x - w.lo)
            want.append((fi, True, x))
            if out:
                cnt[o] += 1; found = 1
                if not sup: disp.append((line, out))
    def vis(n):
        e = h.f(n, 'policy_node', 'exceptions'); visit(n, h.f(n, 'policy_node', 'flavor'), h.S(e) if e else None, h.f(n, 'policy_node', 'lineno'))
    if mode == 'run_checks_on_one_file':
        def walk(n):
            while n:
                vis(n)
                if h.f(n, 'policy_node', 'first_child'): walk(h.f(n, 'policy_node', 'first_child'))
                n = h.f(n, 'policy_node', 'next')
        walk(root); visit('cleanup', w.E('NODE_CLEANUP'), None, 0)
        call = lambda: nat.fn(mode)(ck, data, root)
    elif mode == 'call_checks': vis(node); call = lambda: nat.fn(mode)(ck, data, node)
    else: vis(node); call = lambda: nat.fn(mode)(heads[h.f(node, 'policy_node', 'flavor')], data, node)
    import cx
    brief = lambda n: n if not isinstance(n, int) else 'line %d (%s)' % (h.f(n, 'policy_node', 'lineno'), cx.node_brief(h, n)[:60])
    inp = dict(tree=cx.tree_text(h, root, node), suppressions={brief(n): h.S(h.f(n, 'policy_node', 'exceptions')).decode() for fl, n in nodes if h.f(n, 'policy_node', 'exceptions')},
               registered={h.prog.enums['enum node_flavor'][fl]: [(x[1].decode(), 'function %d' % x[0]) for x, o in reg[fl]] for fl in used if reg[fl]}, suppress_output=sup)
    rc, out = captured(call)
    h1 = CH(w)
    def bad(ob, e, a): return dict(obligation='%s: %s' % (con.name, ob), expected=str(e)[:900], actual=str(a)[:900], input=inp)
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        got, want = got[max(0, i - 2):i + 2], want[max(0, i - 2):i + 2]
        return bad('runs exactly the checks not named in the suppression text, in order', [(a, b, brief(c)) for a, b, c in want], [(a, b, brief(c)) for a, b, c in got])
    c1 = {o: h1.f(o, 'check_node', 'issues_found') for o in cnt}
    if c1 != cnt: return bad('counts each issue exactly once, at its own check', sorted(cnt.values()), sorted(c1.values()))
    f1 = ctypes.c_int.from_address(nat.addr('found_issue')).value
    if f1 != found: return bad('remembers whether an issue was found', found, f1)
    if rc != 0: return bad('returns success', 0, rc)
    ol = out.decode('latin1').split('\n')[:-1]
    if len(ol) != len(disp): return bad('prints each issue once', disp, ol)
    fname = h.S(h.f(data, 'check_data', 'filename')).decode('latin1')
    import re
    for l, (line, (sv, cid, msg)) in zip(ol, disp):
        pl = re.sub(r'\x1b\[[0-9;]*m', '', l)
        m = re.fullmatch(r'(.*?):\s*(\d+):\s+\((.)\):\s(.*) \((.)-(\d+)\)', pl, re.S)
        if not m or m.group(1) != fname or int(m.group(2)) != line or m.group(3) != chr(sv) or m.group(5) != chr(sv) or int(m.group(6)) != cid or m.group(4) != msg.decode():
            return bad('the printed line carries file, line, severity, message and number', (fname, line, chr(sv), cid, msg), pl)
