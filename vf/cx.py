"""Concrete counterexample search: evaluates a contract on the real code (compiled from /repo's
current sources) with concrete inputs.  Used only after an obligation failed, to attach a
failing input to the report; never to decide that a property holds."""
import ctypes, os, subprocess, tempfile, random, signal, struct, sys, time, json, shutil, pickle
from irx import REPO, VERIF, prep, sources, CPP

class Native:
    def __init__(s, prog, work=None):
        s.prog = prog
        s.work = work or tempfile.mkdtemp(prefix='vfc.')
        so = os.path.join(s.work, 'libsel.so')
        prep(s.work)
        main = os.path.join(s.work, 'main_renamed.o')
        srcs = [f for f in sources()] + [os.path.join(s.work, 'parse.c'), os.path.join(s.work, 'lex.c')]
        objs, procs = [], []
        for f in srcs:
            o = os.path.join(s.work, os.path.basename(f)[:-2] + '.o'); objs.append(o)
            procs.append(subprocess.Popen(['gcc', '-c', '-fPIC', '-g', '-O0', '-w', '-std=gnu11'] + CPP + ['-Dmain=selint_main', '-I' + s.work, '-I' + os.path.join(REPO, 'src'), f, '-o', o],
                         stderr=subprocess.PIPE))
        for p in procs:
            e = p.communicate()[1]
            if p.returncode: raise RuntimeError('gcc: ' + e.decode()[:2000])
        wrapc = os.path.join(s.work, 'wrap.c')
        open(wrapc, 'w').write('''
#include <stdlib.h>
char *vf_lo, *vf_hi; 
void __real_free(void *);
void __wrap_free(void *p) { if ((char *)p >= vf_lo && (char *)p < vf_hi) return; __real_free(p); }
''')
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-g', '-o', so, wrapc] + objs + ['-Wl,-Bsymbolic', '-Wl,--wrap=free', '-lconfuse', '-lm'], capture_output=True, text=True)
        if r.returncode: raise RuntimeError('link: ' + r.stderr[:2000])
        s.lib = ctypes.CDLL(so)
        s.sym = {}
        for l in subprocess.run(['nm', so], capture_output=True, text=True).stdout.split('\n'):
            w = l.split()
            if len(w) == 3 and w[1] in 'tTdDbBrRvV': s.sym.setdefault(w[2], int(w[0], 16))
        s.base = ctypes.cast(s.lib.vf_lo_addr if False else ctypes.addressof(ctypes.c_char.in_dll(s.lib, 'vf_lo')), ctypes.c_void_p).value - s.sym['vf_lo']
        s.fns = {}
        shutil.rmtree(s.work, ignore_errors=True)
    def addr(s, name): return s.base + s.sym[name] if name in s.sym else None
    def fn(s, name):
        f = s.fns.get(name)
        if f is None:
            F = s.prog.find(name)
            args = []
            for n, t in F.params:
                args.append({8: ctypes.c_uint8, 1: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[t.n if t.k == 'int' else 64])
            if F.ret.k == 'void': rt = None
            elif F.ret.k == 'ptr': rt = ctypes.c_uint64
            else: rt = {1: ctypes.c_uint8, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[F.ret.n]
            bool_ret = F.ret.k == 'int' and F.ret.n == 1
            g = ctypes.CFUNCTYPE(rt, *args)(s.addr(name))
            f = s.fns[name] = (lambda *a: bool(g(*a) & 1)) if bool_ret else g
        return f

BASE = {'char': 1, 'unsigned char': 1, 'signed char': 1, '_Bool': 1, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'short': 2, 'unsigned short': 2}
def size_of(di):
    if di[0] == 'ptr': return 8
    if di[0] == 'enum': return 4
    if di[0] == 'array': return size_of(di[1]) * di[2]
    if di[0] == 'base': return BASE.get(di[1], 4)
    if di[0] in ('union', 'struc'): return 8
    return 8

class World:
    """a bump arena of concrete objects"""
    def __init__(s, nat, seed, size=1 << 20):
        s.nat, s.prog = nat, nat.prog
        s.size = size
        s.buf = ctypes.create_string_buffer(size); s.lo = ctypes.addressof(s.buf); s.p = 64
        ctypes.c_uint64.in_dll(nat.lib, 'vf_lo').value = s.lo
        ctypes.c_uint64.in_dll(nat.lib, 'vf_hi').value = s.lo + size
        s.rng = random.Random(seed); s.types = {}
        s.notes = []
    def alloc(s, n):
        a = s.lo + s.p; s.p += (n + 31) & ~15
        if s.p > s.size: raise MemoryError
        return a
    def fld(s, st, f):
        for n, di, o in s.prog.structs[st]:
            if n == f: return di, o
        raise KeyError((st, f))
    def ssize(s, st):
        return max(o + size_of(d) for n, d, o in s.prog.structs[st]) + 16
    def set(s, p, st, f, v):
        di, o = s.fld(st, f); n = size_of(di)
        if isinstance(v, (list, tuple)):
            k = size_of(di[1])
            for i, x in enumerate(v): ctypes.memmove(p + o + i * k, (x & ((1 << (8 * k)) - 1)).to_bytes(k, 'little'), k)
            return
        ctypes.memmove(p + o, (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'), n)
    def obj(s, st, **kw):
        p = s.alloc(s.ssize(st)); s.types[p] = st
        for k, v in kw.items():
            if isinstance(v, bytes): v = s.str(v)
            s.set(p, st, k, v)
        return p
    def str(s, b):
        p = s.alloc(len(b) + 1); ctypes.memmove(p, b + b'\0', len(b) + 1); s.types[p] = 'char'; return p
    def sl(s, items):
        nxt = 0
        for b in reversed(items): nxt = s.obj('string_list', string=b, next=nxt)
        return nxt
    def E(s, n): return s.prog.enums[n]
    def node(s, flavor, data=0, parent=0, lineno=1, exceptions=0):
        return s.obj('policy_node', flavor=s.E(flavor), data=data, parent=parent, next=0, prev=0, first_child=0, exceptions=exceptions, lineno=lineno)
    def adopt(s, parent, kids):
        prev = 0
        for k in kids:
            s.set(k, 'policy_node', 'parent', parent); s.set(k, 'policy_node', 'prev', prev)
            if prev: s.set(prev, 'policy_node', 'next', k)
            else: s.set(parent, 'policy_node', 'first_child', k)
            prev = k
    def snapshot(s): return ctypes.string_at(s.lo, s.p)

class CHeap:
    """concrete counterpart of sx.Heap"""
    concrete = True
    def __init__(s, w, snap=None, ctx=None): s.w, s.snap, s.prog = w, snap, w.prog; s.ctx = s
    root_args = ()
    def mem(s, a, n):
        if s.snap is not None and s.w.lo <= a < s.w.lo + len(s.snap):
            o = a - s.w.lo; return s.snap[o:o + n]
        return ctypes.string_at(a, n)
    def f(s, p, st, fld):
        if not isinstance(p, int) or p < 4096: return 0
        di, o = s.w.fld(st, fld)
        return int.from_bytes(s.mem(p + o, size_of(di)), 'little')
    def fidx(s, p, st, fld, i):
        if p < 4096: return 0
        di, o = s.w.fld(st, fld); k = size_of(di[1])
        return int.from_bytes(s.mem(p + o + i * k, k), 'little')
    def arrlen(s, st, fld): return s.w.fld(st, fld)[0][2]
    def S(s, p):
        if p < 4096: return b''
        if s.snap is not None and s.w.lo <= p < s.w.lo + len(s.snap):
            o = p - s.w.lo; e = s.snap.index(b'\0', o); return s.snap[o:e]
        return ctypes.string_at(p)
    def valid(s, p, st): return p >= 4096
    def lit(s, b): return b
    def E(s, n): return s.prog.enums[n]
    def slen(s, x): return len(x)
    def pre(s, x, n): return x[:n]
    def suf(s, x, n): return x[n:] if n <= len(x) else b''
    def has(s, x, y): return y in x
    def ch(s, x, i=0): return x[i] if i < len(x) else 0
    def endsw(s, x, y): return x.endswith(y)
    def startsw(s, x, y): return x.startswith(y)
    def startsw2(s, x, y): return x.startswith(y)
    def slt(s, x, y): return x < y
    def haschr(s, x, b): return b in x
    def idxchr(s, x, b): return x.index(b)
    def ridxchr(s, x, b): return x.rindex(b)
    LK = {'decl': 'look_up_in_decl_map', 'ifs': 'look_up_in_ifs_map', 'mods': 'look_up_in_mods_map', 'mod_layers': 'look_up_in_mod_layers_map',
          'template': 'look_up_in_template_map', 'permmacros': 'look_up_in_permmacros_map', 'transform': 'is_transform_if', 'filetrans': 'is_filetrans_if', 'role': 'is_role_if'}
    def lk(s, m, x, *a):
        b = ctypes.create_string_buffer(x)
        return s.w.nat.fn(s.LK[m])(ctypes.addressof(b), *a)
    def permsug(s, cls, perms):
        b = ctypes.create_string_buffer(cls)
        return bool(s.w.nat.fn('permmacro_check')(ctypes.addressof(b), perms))
    def g(s, name): return int.from_bytes(ctypes.string_at(s.w.nat.addr(name), 8), 'little')

# ------------------------------------------------------------------ evaluation of one contract on one input
def truth(x):
    if isinstance(x, bool): return x
    return bool(x)

def run_case(con, nat, seed, gen):
    """-> None (inconclusive/holds) or a dict describing the violation"""
    w = World(nat, seed)
    if con.__dict__.get('case'): return con.case(con, nat, w)
    args = gen(w)
    if args is None: return None
    h = CHeap(w); h.root_args = args
    for lab, f in con.pres(h, args):
        if not truth(f): return 'skip'
    h0 = CHeap(w, w.snapshot()); h0.root_args = args
    want = con.value(h0, *args) if con.value is not None else None
    r = nat.fn(con.name)(*args)
    if con.value is not None:
        got = r
        if isinstance(want, bool) or isinstance(got, bool): ok = bool(want) == bool(got) and (isinstance(got, bool) or got in (0, 1))
        else: ok = want == got
        if not ok: return dict(obligation='%s: result equals its specification' % con.name, expected=repr(want), actual=repr(got), input=describe(w, con, args))
    h1 = CHeap(w); h1.root_args = args
    for lab, f in con.posts(h0, h1, r, args):
        if not truth(f): return dict(obligation='%s: %s' % (con.name, lab), actual='returned %r' % (r,), input=describe(w, con, args))
    return None

def describe(w, con, args):
    h = CHeap(w); out = {}
    pts = w.prog.param_types(w.prog.find(con.name)) or []
    for i, a in enumerate(args):
        out['arg%d' % i] = show(h, pts[i + 1] if i + 1 < len(pts) else None, a, 0)
    if w.notes: out['setup'] = w.notes[:60]
    return out
def show(h, di, a, d):
    if di is None or di[0] != 'ptr': return a
    if not a: return None
    e = di[1]
    if e == ('base', 'char'): return h.S(a).decode('latin1')
    if e[0] != 'struc' or d > 5: return '...'
    st = e[1]
    if st == 'string_list':
        out = []
        while a and len(out) < 30: out.append(h.S(h.f(a, st, 'string')).decode('latin1')); a = h.f(a, st, 'next')
        return out
    if st == 'policy_node' and d == 0:
        p = a
        while h.f(p, st, 'parent'): p = h.f(p, st, 'parent')
        while h.f(p, st, 'prev'): p = h.f(p, st, 'prev')
        return {'node': node_brief(h, a), 'tree': tree_text(h, p, a)}
    if st == 'policy_node': return node_brief(h, a)
    return {n: show(h, t, h.f(a, st, n), d + 1) for n, t, o in h.prog.structs.get(st, [])}
def node_brief(h, a):
    names = h.prog.enums.get('enum node_flavor', [])
    fl = h.f(a, 'policy_node', 'flavor')
    s = names[fl] if fl < len(names) else str(fl)
    from specs.common import DATA
    for fls, ty in DATA:
        if s in fls and h.f(a, 'policy_node', 'data'):
            s += ' ' + json.dumps(show(h, ('ptr', ('base', 'char')) if ty == 'char' else ('ptr', ('struc', ty)), h.f(a, 'policy_node', 'data'), 1))
    return s
def tree_text(h, p, mark, d=0):
    out = []
    while p and len(out) < 60:
        out.append('  ' * d + node_brief(h, p) + ('   <== argument' if p == mark else ''))
        c = h.f(p, 'policy_node', 'first_child')
        if c: out += tree_text(h, c, mark, d + 1)
        p = h.f(p, 'policy_node', 'next') if d else h.f(p, 'policy_node', 'next')
    return out

def batch(con, nat, gen, seed0, n, tlimit, conn=None):
    """run n cases in a forked child; returns (status, info)"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            out = os.fdopen(wr, 'wb', 0)
            ran = 0
            for i in range(n):
                out.write(struct.pack('<BQ', 1, seed0 + i))
                signal.alarm(10)
                try: v = run_case(con, nat, seed0 + i, gen)
                except MemoryError: v = None
                if v == 'skip': continue
                ran += 1
                if v:
                    b = json.dumps(v).encode(); out.write(struct.pack('<BQ', 2, len(b)) + b); os._exit(0)
            out.write(struct.pack('<BQ', 3, ran)); os._exit(0)
        except BaseException as e:
            import traceback
            b = (repr(e) + traceback.format_exc()[-500:]).encode(); os.write(wr, struct.pack('<BQ', 4, len(b)) + b); os._exit(1)
    os.close(wr)
    data = b''
    with os.fdopen(r, 'rb') as f: data = f.read()
    _, st = os.waitpid(pid, 0)
    cur, i = None, 0
    while i + 9 <= len(data):
        k, v = struct.unpack_from('<BQ', data, i); i += 9
        if k == 1: cur = v
        elif k == 2: return 'violation', cur, json.loads(data[i:i + v].decode()), 0
        elif k == 3: return 'ok', cur, None, v
        elif k == 4: return 'error', cur, data[i:i + v].decode(), 0
    if os.WIFSIGNALED(st): return 'crash', cur, signal.Signals(os.WTERMSIG(st)).name, 0
    return 'error', cur, 'child ended', 0

def search(con, nat, gen, seed, tlimit, batchsize=150):
    """look for a failing input for up to tlimit seconds -> dict or None"""
    t0 = time.time(); k = 0; ran = 0; errs = 0
    while time.time() - t0 < tlimit:
        st, cur, info, n = batch(con, nat, gen, seed * 1000003 + k * batchsize, batchsize, tlimit)
        k += 1; ran += n
        if st == 'violation': info.update(seed=cur, kind='contract violated on the real code'); return info, ran
        if st == 'crash':
            d = dict(seed=cur, kind='real code crashed', actual=info, obligation='%s: memory safety' % con.name)
            try:
                if con.__dict__.get('case'): d['input'] = 'seed %d' % cur
                else: w = World(nat, cur); a = gen(w); d['input'] = describe(w, con, a)
            except Exception as e: d['input'] = repr(e)
            return d, ran
        if st == 'error':
            errs += 1; last = info
            if errs > 3: return dict(error=last), ran
    return None, ran
