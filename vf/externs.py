"""Assumed contracts for libc and the uthash stand-in (listed in evidence as trusted)."""
from sx import *

EXT = {}
def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d

def _str(c, mem, p, pc, line, who, what):
    if c.memcheck:
        c.oblige('%s: argument of %s is a valid string' % (who, what), 'deref', pc, c.strvalid(mem, p), line)
    S = c.strof(mem, p, True)
    if 'paths' in c.opts: c.__dict__.setdefault('strlog', {})[S.get_id()] = S
    return S

@ext('strcmp')
def _strcmp(c, mem, a, pc, line, who, I):
    x, y = _str(c, mem, a[0], pc, line, who, 'strcmp'), _str(c, mem, a[1], pc, line, who, 'strcmp')
    r = c.uf('strcmp_r', [Str, Str, z3.BitVecSort(32)], x, y)
    c.axiom((r == 0) == (x == y)); c.axiom((r < 0) == c.slt(x, y)); c.axiom((r > 0) == c.slt(y, x))
    return r

@ext('strncmp')
def _strncmp(c, mem, a, pc, line, who, I):
    x, y = _str(c, mem, a[0], pc, line, who, 'strncmp'), _str(c, mem, a[1], pc, line, who, 'strncmp')
    n = a[2]
    # strncmp(x,y,n) compares the n-prefixes; with n >= both lengths this is strcmp
    x, y = c.pre(x, n), c.pre(y, n)
    r = c.uf('strcmp_r', [Str, Str, z3.BitVecSort(32)], x, y)
    c.axiom((r == 0) == (x == y)); c.axiom((r < 0) == c.slt(x, y)); c.axiom((r > 0) == c.slt(y, x))
    return r

@ext('memcmp')
def _memcmp(c, mem, a, pc, line, who, I):
    raise Unsupported('memcmp')

@ext('strlen')
def _strlen(c, mem, a, pc, line, who, I):
    return c.slen(_str(c, mem, a[0], pc, line, who, 'strlen'))

def substr_facts(c, mem, p, k, S, pc):
    q = c.strptr(mem, p, k, pc)
    c.assume(pc, Ne(q, bv(0)))
    return q

@ext('strchr')
def _strchr(c, mem, a, pc, line, who, I):
    S = _str(c, mem, a[0], pc, line, who, 'strchr')
    ch = fold(z3.Extract(7, 0, a[1]), a[1])
    ev = c.litval(S)
    found = c.uf('haschr', [Str, z3.BitVecSort(8), z3.BoolSort()], S, ch)
    k = c.uf('idxchr', [Str, z3.BitVecSort(8), BV64], S, ch)
    if ev is not None and z3.is_bv_value(ch):
        i = (ev + b'\0').find(bytes([ch.as_long()]))
        c.axiom(found == (i >= 0)); 
        if i >= 0: c.axiom(k == i)
    if ev is not None and len(ev) <= 16 and not z3.is_bv_value(ch): c.axiom(found == Or([ch == b for b in ev + b'\0']))
    c.axiom(Implies(found, z3.ULE(k, c.slen(S))))
    c.axiom(Implies(And(found, ch != 0), z3.ULT(k, c.slen(S))))
    c.axiom(Implies(ch == 0, And(found, k == c.slen(S))))
    c.axiom(Implies(found, c.ch(c.suf(S, k)) == ch))
    q = substr_facts(c, mem, a[0], k, S, And(pc, found))
    r = z3.If(found, q, bv(0)); c.nullcond[r.get_id()] = Not(found); c.keep.append(r)
    return r

@ext('strrchr')
def _strrchr(c, mem, a, pc, line, who, I):
    S = _str(c, mem, a[0], pc, line, who, 'strrchr')
    ch = fold(z3.Extract(7, 0, a[1]), a[1])
    found = c.uf('haschr', [Str, z3.BitVecSort(8), z3.BoolSort()], S, ch)
    k = c.uf('ridxchr', [Str, z3.BitVecSort(8), BV64], S, ch)
    c.axiom(Implies(found, z3.ULE(k, c.slen(S))))
    c.axiom(Implies(found, c.ch(c.suf(S, k)) == ch))
    q = substr_facts(c, mem, a[0], k, S, And(pc, found))
    r = z3.If(found, q, bv(0)); c.nullcond[r.get_id()] = Not(found); c.keep.append(r)
    return r

@ext('strstr')
def _strstr(c, mem, a, pc, line, who, I):
    S = _str(c, mem, a[0], pc, line, who, 'strstr'); T = _str(c, mem, a[1], pc, line, who, 'strstr')
    found = c.has(S, T)
    k = c.uf('idxstr', [Str, Str, BV64], S, T)
    c.axiom(Implies(found, z3.ULE(k + c.slen(T), c.slen(S)))); c.axiom(Implies(found, z3.ULE(k, c.slen(S))))
    c.axiom(Implies(found, c.pre(c.suf(S, k), c.slen(T)) == T))
    q = substr_facts(c, mem, a[0], k, S, And(pc, found))
    r = z3.If(found, q, bv(0)); c.nullcond[r.get_id()] = Not(found); c.keep.append(r)
    return r

@ext('atoi')
def _atoi(c, mem, a, pc, line, who, I):
    S = _str(c, mem, a[0], pc, line, who, 'atoi')
    return c.uf('atoi', [Str, z3.BitVecSort(32)], S)

def newstr(c, mem, S, pc):
    p = c.malloc(mem, None, pc, 'char')
    c.setregion(mem, ('STR',), z3.Store(c.region(mem, ('STR',)), p, S))
    return p

@ext('strdup')
def _strdup(c, mem, a, pc, line, who, I):
    S = _str(c, mem, a[0], pc, line, who, 'strdup')
    return newstr(c, mem, S, pc)

@ext('strndup')
def _strndup(c, mem, a, pc, line, who, I):
    S = _str(c, mem, a[0], pc, line, who, 'strndup')
    return newstr(c, mem, c.pre(S, a[1]), pc)

@ext('malloc')
def _malloc(c, mem, a, pc, line, who, I):
    return c.malloc(mem, a[0], pc)

def zero_object(c, mem, p, n):
    for st in c.prog.structs:
        if c.struct_size(st) != n: continue
        for nm, d, o in c.prog.structs[st]:
            try: so = c.region_sort(c.rname(st, nm))
            except Exception: continue
            if so.domain() == BV64 and z3.is_bv_sort(so.range()) and so.range().size() in (8, 16, 32, 64):
                r = c.rname(st, nm); c.setregion(mem, r, z3.Store(c.region(mem, r), p, bv(0, so.range().size())))
@ext('calloc')
def _calloc(c, mem, a, pc, line, who, I):
    p = c.malloc(mem, fold(a[0] * a[1], a[0], a[1]), pc)
    c.zeroed = getattr(c, 'zeroed', []); c.zeroed.append(p)
    f = c.opts.get('calloc')
    if f: f(c, mem, p, a, pc)
    elif isval(a[0]) and isval(a[1]):
        zero_object(c, mem, p, a[0].as_long() * a[1].as_long())
    return p

@ext('free')
def _free(c, mem, a, pc, line, who, I):
    f = c.opts.get('free')
    if f: return f(c, mem, a[0], pc, line, who)
    if 'free' in c.opts.get('track', ()):
        tg = c.region(mem, ('tag',))
        c.oblige('%s: freed pointer is null or live' % who, 'free', pc, Or(Eq(a[0], bv(0)), And(c.select(tg, a[0]) != 0, c.select(tg, a[0]) != 2)), line)
        c.setregion(mem, ('tag',), z3.Store(tg, a[0], z3.If(a[0] == 0, c.select(tg, a[0]), bv(2, 8))))
    return None

@ext('printf', 'puts', 'fprintf', 'fputs', 'fputc', 'putchar', 'perror', 'fflush', 'fwrite', 'vprintf', 'putc')
def _out(c, mem, a, pc, line, who, I):
    h = c.opts.get('on_output')
    if h: h(c, mem, I.x.v, a, pc, line, who)
    return c.fresh('io', z3.BitVecSort(32)) if I.ty.k == 'int' and I.ty.n == 32 else (c.fresh('io', BV64) if I.ty.k != 'void' else None)

@ext('exit', 'abort', '__assert_fail', '_exit')
def _exit(c, mem, a, pc, line, who, I):
    h = c.opts.get('on_exit')
    if h: h(c, mem, I.x.v, a, pc, line, who)
    return 'noreturn'

@ext('__vf_hash_find')
def _hf(c, mem, a, pc, line, who, I):
    head, off, sz, key, ln = a
    r = hkey(c, head, off, sz)
    S = _str(c, mem, key, pc, line, who, 'HASH_FIND')
    K = c.pre(S, ln) if not ln.eq(c.slen(S)) else S
    v = c.select(c.region(mem, r), K)
    c.opts.get('hash_wf', lambda *x: None)(c, r, K)
    return v

@ext('__vf_hash_add')
def _ha(c, mem, a, pc, line, who, I):
    head, off, sz, key, ln, el = a
    r = hkey(c, head, off, sz)
    S = _str(c, mem, key, pc, line, who, 'HASH_ADD')
    k = c.pre(S, ln) if not ln.eq(c.slen(S)) else S
    c.opts.get('hash_wf', lambda *x: None)(c, r, k)
    c.oblige('%s: key added to table is not already present' % who, 'hash', pc, c.select(c.region(mem, r), k) == 0, line)
    h = c.opts.get('hash_add')
    if h: h(c, mem, r, k, key, el, pc, line, who)
    c.setregion(mem, r, z3.Store(c.region(mem, r), k, el))
    n = ('HTN',) + r[1:]; c.regsort[n] = z3.BitVecSort(32)
    c.setregion(mem, n, c.region(mem, n) + 1)
    return None

@ext('__vf_hash_cnt')
def _hc(c, mem, a, pc, line, who, I):
    r = hkey(c, *a[:3]); n = ('HTN',) + r[1:]; c.regsort[n] = z3.BitVecSort(32)
    return c.region(mem, n)

def hkey(c, head, off, sz):
    pv = c.getprov(head)
    if not pv or pv[0] != 'g' or not z3.is_bv_value(off): raise Unsupported('hash head')
    key = c.ginfo[pv[1]][0]
    r = ('HT', key[0] + '.' + key[1], off.as_long(), sz.as_long())
    c.regsort[r] = z3.ArraySort(Str, BV64)
    return r
def hstruct(c, r):
    """element struct of a table: the one of that size with a hash handle at that offset"""
    for st, fs in c.prog.structs.items():
        if c.struct_size(st) == r[3] and any(o == r[2] and d[-1] == 'UT_hash_handle' for n, d, o in fs): return st
    raise Unsupported('hash element type')

@ext('llvm.memcpy', 'memcpy', 'llvm.memmove')
def _memcpy(c, mem, a, pc, line, who, I):
    d, sp, n = a[0], a[1], a[2]
    if not z3.is_bv_value(n): raise Unsupported('memcpy symbolic size')
    n = n.as_long()
    sa, da = c.getprov(sp), c.getprov(d)
    if sa and sa[0] == 'g' and da and da[0] == 'a':
        key, mod, g, sz = c.ginfo[sa[1]]
        # constant initialiser of a local aggregate
        def walk(t, o):
            if t.k == 'array':
                e = c.sizeof(mod, t.el)
                for i in range(t.n): walk(t.el, o + i * e)
            elif t.k == 'struct':
                dd = t if t.el is not None else c.prog.type(mod, t.name)
                for i, e in enumerate(dd.el): walk(e, o + c.offset(mod, dd, i)[0])
            else:
                v = c.ginit(mod, g[1], g[2], o, t)
                if z3.is_bool(v): v = z3.If(v, bv(1, 8), bv(0, 8))
                c.regsort[('a', da[1], da[2] + o)] = v.sort()
                c.setregion(mem, ('a', da[1], da[2] + o), v)
        walk(g[1], 0)
        return d if I.ty.k == 'ptr' else None
    raise Unsupported('memcpy')

@ext('llvm.memset', 'memset')
def _memset(c, mem, a, pc, line, who, I):
    f = c.opts.get('memset')
    pv = c.getprov(a[0])
    if f and f(c, mem, a, pc, line, who): return a[0] if I.ty.k == 'ptr' else None
    st = c.__dict__.get('stackobj', {}).get(a[0].get_id())
    if st and z3.is_bv_value(a[1]) and a[1].as_long() == 0 and z3.is_bv_value(a[2]) and a[2].as_long() == c.struct_size(st):
        for n, d, o in c.prog.structs[st]:
            r = c.rname(st, n); c.setregion(mem, r, z3.Store(c.region(mem, r), a[0], bv(0, c.region_sort(r).range().size())))
        return a[0] if I.ty.k == 'ptr' else None
    if pv and pv[0] == 'a' and z3.is_bv_value(a[1]) and a[1].as_long() == 0:
        uid = pv[1]
        for r in [r for r in mem if r[0] == 'a' and r[1] == uid]: del mem[r]
        c.zeroa = getattr(c, 'zeroa', set())
        n = a[2].as_long()
        for w in (8, 16, 32, 64):
            r = ('aa', uid, w); c.regsort[r] = z3.ArraySort(BV64, z3.BitVecSort(w))
            c.setregion(mem, r, z3.K(BV64, bv(0, w)))
        return a[0] if I.ty.k == 'ptr' else None
    if a[0].get_id() in c.freshids and z3.is_bv_value(a[1]) and a[1].as_long() == 0 and z3.is_bv_value(a[2]):
        c.oblige('%s: clearing stays inside the object' % who, 'deref', pc, z3.ULE(a[2], c.uf('objsize', [BV64, BV64], a[0])), line)
        zero_object(c, mem, a[0], a[2].as_long())
        return a[0] if I.ty.k == 'ptr' else None
    raise Unsupported('memset')

def _isx(name, pred):
    def f(c, mem, a, pc, line, who, I):
        r = c.uf(name + '_r', [z3.BitVecSort(32), z3.BitVecSort(32)], a[0])
        c.axiom((r != 0) == pred(a[0]))
        return r
    EXT[name] = f
def rng(lo, hi): return lambda v: And(z3.ULE(bv(ord(lo), 32), v), z3.ULE(v, bv(ord(hi), 32)))
_isx('isdigit', rng('0', '9'))
_isx('isupper', rng('A', 'Z'))
_isx('islower', rng('a', 'z'))
_isx('isalpha', lambda v: Or(rng('A', 'Z')(v), rng('a', 'z')(v)))
_isx('isalnum', lambda v: Or(rng('A', 'Z')(v), rng('a', 'z')(v), rng('0', '9')(v)))
_isx('isspace', lambda v: Or(v == 32, And(z3.ULE(bv(9, 32), v), z3.ULE(v, bv(13, 32)))))

@ext('__ctype_b_loc')
def _ctb(c, mem, a, pc, line, who, I):
    # table of classification bits for the C locale: returns pointer to pointer-to-table
    t = c.gaddr.get('ctype_b')
    if t is None:
        t = c.gaddr['ctype_b'] = bv(c.new_addr()); 
        tb = bv(c.new_addr(4096) + 256)
        c.setprov(t, ('ctypep', tb)); c.ctb = tb
    return t
