"""Mechanical extraction of LLVM IR from /repo's current sources, and a parser
for the IR subset clang -O0 + mem2reg/loop-simplify/lcssa produces for C."""
import os, re, subprocess, sys, shutil, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang-18' if os.path.exists('/usr/bin/clang-18') else 'clang'
OPT = '/usr/bin/opt-18' if os.path.exists('/usr/bin/opt-18') else 'opt'

class ExtractError(Exception):
    pass

CONFIG_H = '''#define PACKAGE "selint"
#define PACKAGE_NAME "SELint"
#define PACKAGE_STRING "SELint"
#define PACKAGE_TARNAME "selint"
#define PACKAGE_VERSION "0"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_URL ""
#define VERSION "0"
#define HAVE_MEMSET 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_UNISTD_H 1
#define HAVE_STDBOOL_H 1
#define HAVE_STDDEF_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STRINGS_H 1
#define HAVE_MALLOC_H 1
#define HAVE_LIBINTL_H 1
#define HAVE_STRDUP 1
#define STDC_HEADERS 1
'''

def sources():
    src = os.path.join(REPO, 'src')
    out = []
    for f in sorted(os.listdir(src)):
        if f.endswith('.c') and f not in ('lex.c', 'parse.c'):
            out.append(os.path.join(src, f))
    return out

def prep(work, want_lex=True):
    """config.h and bison/flex output in `work`."""
    with open(os.path.join(work, 'config.h'), 'w') as f:
        f.write(CONFIG_H)
    src = os.path.join(REPO, 'src')
    r = subprocess.run(['bison', '-d', '-Wno-yacc', '-o', os.path.join(work, 'parse.c'),
                        os.path.join(src, 'parse.y')], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('bison: ' + r.stderr[:2000])
    r = subprocess.run(['flex', '-o', os.path.join(work, 'lex.c'), os.path.join(src, 'lex.l')],
                       capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('flex: ' + r.stderr[:2000])

CPP = ['-DHAVE_CONFIG_H', '-DSYSCONFDIR="/etc"', '-D_GNU_SOURCE']

def emit_one(args):
    path, work, stub = args
    b = os.path.splitext(os.path.basename(path))[0]
    ll = os.path.join(work, b + '.0.ll')
    ml = os.path.join(work, b + '.ll')
    inc = (['-I' + os.path.join(VERIF, 'stubs')] if stub else [])
    cmd = [CLANG, '-O0', '-g', '-w', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-std=gnu11'] + CPP + inc + ['-I' + work, '-I' + os.path.join(REPO, 'src'),
           '-S', '-emit-llvm', path, '-o', ll]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('clang %s: %s' % (path, r.stderr[:3000]))
    r = subprocess.run([OPT, '-passes=sroa<preserve-cfg>,loop-simplify,lcssa', '-S', ll, '-o', ml],
                       capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('opt %s: %s' % (path, r.stderr[:3000]))
    os.unlink(ll)
    return ml

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'n', 'el', 'name')
    def __init__(s, k, n=0, el=None, name=None):
        s.k, s.n, s.el, s.name = k, n, el, name
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.n
        if s.k == 'array': return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct': return s.name or '{%s}' % (s.el,)
        return s.k
PTR = Ty('ptr'); VOID = Ty('void'); DOUBLE = Ty('double'); FLOAT = Ty('float'); META = Ty('metadata'); LABEL = Ty('label')
_int = {}
def INT(n):
    if n not in _int: _int[n] = Ty('int', n)
    return _int[n]

TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\..)*"|"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)|![-a-zA-Z$._0-9\\]*|\.\.\.|[-+]?\d+\.\d+(?:e[-+]?\d+)?|-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+|[a-zA-Z_.][-a-zA-Z0-9_.]*|\#\d+|[()\[\]{}<>,=*:|])''')

def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            if s[i:].lstrip().startswith(';'): break
            raise ExtractError('tokenize: %r' % s[i:i+60])
        out.append(m.group(1)); i = m.end()
    return out

class Op:
    """operand: kind in local, global, int, null, undef, zero, cexpr, agg, cstr, fp, meta"""
    __slots__ = ('k', 'v', 'ty', 'args', 'extra')
    def __init__(s, k, v=None, ty=None, args=None, extra=None):
        s.k, s.v, s.ty, s.args, s.extra = k, v, ty, args, extra
    def __repr__(s): return '<%s %s>' % (s.k, s.v)

ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext returned immarg
nofree noreturn nounwind inreg swiftself inalloca nest align dereferenceable dereferenceable_or_null allocalign
allocptr nsw nuw exact inbounds volatile tail musttail notail fast nnan ninf nsz arcp contract afn reassoc
disjoint nneg dso_local unnamed_addr local_unnamed_addr'''.split())

class P:
    def __init__(s, toks): s.t, s.i = toks, 0
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def acc(s, x):
        if s.peek() == x: s.i += 1; return True
        return False
    def exp(s, x):
        y = s.next()
        if y != x: raise ExtractError('expected %r got %r in %s' % (x, y, ' '.join(s.t)))
    def skip_attrs(s):
        while s.peek() in ATTRS or (s.peek() or '').startswith('#'):
            a = s.next()
            if a in ('align',):
                if s.peek() == '(':
                    s.skip_paren()
                elif s.peek() and re.match(r'\d', s.peek()): s.next()
            elif a in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret'):
                s.skip_paren()
        # parametric attrs
        while s.peek() in ('byval', 'sret', 'elementtype', 'byref', 'preallocated', 'allocsize', 'memory', 'captures', 'range'):
            s.next(); s.skip_paren(); s.skip_attrs()
    def skip_paren(s):
        s.exp('('); d = 1
        while d:
            x = s.next()
            if x == '(': d += 1
            elif x == ')': d -= 1
    def ty(s):
        x = s.next()
        if x == 'ptr': t = PTR
        elif x == 'void': t = VOID
        elif x == 'double': t = DOUBLE
        elif x == 'float': t = FLOAT
        elif x == 'x86_fp80': t = Ty('fp80')
        elif x == 'metadata': t = META
        elif x == 'label': t = LABEL
        elif re.match(r'i\d+$', x): t = INT(int(x[1:]))
        elif x == '[':
            n = int(s.next()); s.exp('x'); el = s.ty(); s.exp(']'); t = Ty('array', n, el)
        elif x == '<':
            if s.peek() == '{':
                t = s.ty(); s.exp('>')
            else:
                n = int(s.next()); s.exp('x'); el = s.ty(); s.exp('>'); t = Ty('vector', n, el)
        elif x == '{':
            els = []
            if not s.acc('}'):
                while True:
                    els.append(s.ty())
                    if s.acc('}'): break
                    s.exp(',')
            t = Ty('struct', 0, els)
        elif x[0] == '%':
            t = Ty('struct', 0, None, x[1:].strip('"'))
        else: raise ExtractError('type? %r in %s' % (x, ' '.join(s.t)))
        # function type
        while s.peek() == '(' and t.k in ('void', 'int', 'ptr', 'double', 'float', 'struct'):
            s.next(); ps = []
            while not s.acc(')'):
                if s.acc('...'): ps.append('...')
                else: ps.append(s.ty()); s.skip_attrs()
                s.acc(',')
            t = Ty('fn', 0, ps, None)
        return t
    def val(s, ty):
        x = s.next()
        if x[0] == '%': return Op('local', x[1:].strip('"'), ty)
        if x[0] == '@': return Op('global', x[1:].strip('"'), ty)
        if x == 'null': return Op('null', None, ty)
        if x in ('undef', 'poison'): return Op('undef', None, ty)
        if x == 'zeroinitializer': return Op('zero', None, ty)
        if x == 'true': return Op('int', 1, ty)
        if x == 'false': return Op('int', 0, ty)
        if x.startswith('c"'): return Op('cstr', unesc(x[2:-1]), ty)
        if x in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'sub', 'add', 'trunc', 'zext', 'sext', 'icmp'):
            s.skip_attrs()
            if x == 'getelementptr':
                s.exp('('); bt = s.ty(); s.exp(','); args = []
                while True:
                    s.skip_attrs()
                    t = s.ty(); args.append(s.val(t))
                    if s.acc(')'): break
                    s.exp(',')
                return Op('cexpr', 'getelementptr', ty, args, bt)
            s.exp('('); args = []
            while True:
                t = s.ty(); args.append(s.val(t))
                if s.acc(')'): break
                if s.acc('to'):
                    tt = s.ty(); s.exp(')'); break
                s.exp(',')
            return Op('cexpr', x, ty, args)
        if x == '[' or x == '{' or x == '<':
            end = {'[': ']', '{': '}', '<': '>'}[x]; args = []
            if x == '<' and s.peek() == '{':
                o = s.val(ty); s.exp('>'); return o
            if not s.acc(end):
                while True:
                    t = s.ty(); args.append(s.val(t))
                    if s.acc(end): break
                    s.exp(',')
            return Op('agg', None, ty, args)
        if re.match(r'-?\d+$', x): return Op('int', int(x), ty)
        if re.match(r'-?\d', x) or x.startswith('0x'): return Op('fp', x, ty)
        if x[0] == '!' : return Op('meta', x, ty)
        raise ExtractError('value? %r in %s' % (x, ' '.join(s.t)))

def unesc(s):
    return re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), s.encode('latin1'))

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line', 'blk')
    def __init__(s, op, res=None, ty=None, a=None, x=None):
        s.op, s.res, s.ty, s.a, s.x, s.line = op, res, ty, a or [], x, None
    def __repr__(s): return '%s = %s %s %s' % (s.res, s.op, s.a, s.x)

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv'.split())
CAST = set('trunc zext sext ptrtoint inttoptr bitcast fptosi fptoui uitofp sitofp fpext fptrunc'.split())

def parse_inst(line):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m: dbg = int(m.group(1))
    line = re.sub(r'(, ![a-z_.A-Z]+ !\d+)+\s*$', '', line)
    line = re.sub(r'(, ![a-z_.A-Z]+ !\d+)+\s*', '', line) if ' switch ' not in line else line
    toks = tokenize(line)
    p = P(toks)
    res = None
    if p.t[0][0] == '%' and len(p.t) > 1 and p.t[1] == '=':
        res = p.next()[1:].strip('"'); p.next()
    p.skip_attrs()
    op = p.next()
    if op in ATTRS:
        p.skip_attrs(); op = p.next()
    if op in BIN:
        p.skip_attrs(); t = p.ty(); a = p.val(t); p.exp(','); b = p.val(t)
        I = Inst(op, res, t, [a, b])
    elif op in CAST:
        p.skip_attrs(); t = p.ty(); a = p.val(t); p.exp('to'); t2 = p.ty()
        I = Inst(op, res, t2, [a])
    elif op in ('icmp', 'fcmp'):
        p.skip_attrs(); c = p.next(); t = p.ty(); a = p.val(t); p.exp(','); b = p.val(t)
        I = Inst(op, res, INT(1), [a, b], c)
    elif op == 'fneg':
        p.skip_attrs(); t = p.ty(); I = Inst(op, res, t, [p.val(t)])
    elif op == 'freeze':
        t = p.ty(); I = Inst(op, res, t, [p.val(t)])
    elif op == 'load':
        p.skip_attrs(); t = p.ty(); p.exp(','); t2 = p.ty(); a = p.val(t2); I = Inst('load', res, t, [a])
    elif op == 'store':
        p.skip_attrs(); t = p.ty(); v = p.val(t); p.exp(','); t2 = p.ty(); a = p.val(t2); I = Inst('store', None, t, [v, a])
    elif op == 'alloca':
        t = p.ty(); n = None
        while p.acc(','):
            if p.peek() == 'align': break
            t2 = p.ty(); n = p.val(t2)
        I = Inst('alloca', res, t, [n] if n else [])
    elif op == 'getelementptr':
        p.skip_attrs(); bt = p.ty(); args = []
        while p.acc(','):
            p.skip_attrs(); t = p.ty(); args.append(p.val(t))
        I = Inst('gep', res, PTR, args, bt)
    elif op == 'br':
        if p.peek() == 'label':
            p.next(); I = Inst('br', None, None, [], [p.next()[1:].strip('"')])
        else:
            t = p.ty(); c = p.val(t); p.exp(','); p.exp('label'); l1 = p.next()[1:].strip('"'); p.exp(','); p.exp('label')
            l2 = p.next()[1:].strip('"'); I = Inst('br', None, None, [c], [l1, l2])
    elif op == 'switch':
        t = p.ty(); v = p.val(t); p.exp(','); p.exp('label'); d = p.next()[1:].strip('"'); p.exp('['); cases = []
        while not p.acc(']'):
            tt = p.ty(); cv = p.val(tt); p.exp(','); p.exp('label'); cases.append((cv.v, p.next()[1:].strip('"')))
        I = Inst('switch', None, t, [v], (d, cases))
    elif op == 'ret':
        t = p.ty(); I = Inst('ret', None, t, [] if t.k == 'void' else [p.val(t)])
    elif op == 'unreachable':
        I = Inst('unreachable')
    elif op == 'phi':
        p.skip_attrs(); t = p.ty(); inc = []
        while True:
            p.exp('['); v = p.val(t); p.exp(','); b = p.next()[1:].strip('"'); p.exp(']'); inc.append((v, b))
            if not p.acc(','): break
        I = Inst('phi', res, t, [], inc)
    elif op == 'select':
        p.skip_attrs(); t = p.ty(); c = p.val(t); p.exp(','); t1 = p.ty(); a = p.val(t1); p.exp(','); t2 = p.ty(); b = p.val(t2)
        I = Inst('select', res, t1, [c, a, b])
    elif op == 'call':
        p.skip_attrs(); t = p.ty(); rt = t
        if t.k == 'fn':
            # re-parse return type
            rt = None
        f = p.val(PTR); p.exp('('); args = []
        while not p.acc(')'):
            tt = p.ty(); p.skip_attrs()
            if tt.k == 'metadata':
                # swallow
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x == '(': d += 1
                    if x == ')': d -= 1
                args.append(Op('meta', None, META))
            else: args.append(p.val(tt))
            p.acc(',')
        if rt is None:
            m = re.search(r'\bcall\s+(?:noalias |noundef |signext |zeroext |nonnull )*([a-z0-9]+|%[\w.]+)\s*\(', line)
            rt = P(tokenize(m.group(1))).ty()
        I = Inst('call', res, rt, args, f)
    elif op in ('extractvalue', 'insertvalue', 'va_arg', 'fence', 'cmpxchg', 'atomicrmw', 'indirectbr'):
        I = Inst('unsupported', res, None, [], line.strip())
    else:
        I = Inst('unsupported', res, None, [], line.strip())
    I.line = dbg
    return I

class Fn:
    def __init__(s, name, mod):
        s.name, s.mod = name, mod; s.params = []; s.ret = None; s.blocks = {}; s.order = []; s.vararg = False
        s.static = False; s.sp = None
    def analyse(s):
        """succ/pred, dominators, natural loops"""
        if hasattr(s, 'succ'): return
        s.succ = {}; s.pred = {b: [] for b in s.order}
        for b in s.order:
            t = s.blocks[b][-1]
            if t.op == 'br': ss = list(dict.fromkeys(t.x))
            elif t.op == 'switch': ss = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            else: ss = []
            s.succ[b] = ss
            for q in ss: s.pred[q].append(b)
        entry = s.order[0]
        # reachable RPO
        seen, post = set(), []
        stack = [(entry, iter(s.succ[entry]))]; seen.add(entry)
        while stack:
            b, it = stack[-1]
            for q in it:
                if q not in seen:
                    seen.add(q); stack.append((q, iter(s.succ[q]))); break
            else:
                post.append(b); stack.pop()
        s.rpo = post[::-1]
        idx = {b: i for i, b in enumerate(s.rpo)}
        dom = {entry: entry}; ch = True
        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]: a = dom[a]
                while idx[b] > idx[a]: b = dom[b]
            return a
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [q for q in s.pred[b] if q in dom]
                n = ps[0]
                for q in ps[1:]: n = inter(n, q)
                if dom.get(b) != n: dom[b] = n; ch = True
        s.idom = dom; s.idx = idx
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = dom[b]
        loops = {}
        for b in s.rpo:
            for q in s.succ[b]:
                if dominates(q, b):
                    body = loops.setdefault(q, {q})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += [y for y in s.pred[x] if y in idx]
                elif idx[q] <= idx[b]:
                    raise ExtractError('irreducible loop in ' + s.name)
        s.loops = loops

class Module:
    def __init__(s, path):
        s.path = path; s.name = os.path.splitext(os.path.basename(path))[0]
        s.types = {}; s.globals = {}; s.fn_text = {}; s.fns = {}; s.meta = {}; s.decls = set()
        s.load()
    def load(s):
        cur = None
        for line in open(s.path, encoding='latin1'):
            if cur is not None:
                if line.startswith('}'):
                    cur = None
                else:
                    s.fn_text[cur][1].append(line.rstrip('\n'))
                continue
            if line.startswith('define '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                cur = m.group(1).strip('"'); s.fn_text[cur] = (line.rstrip('\n'), [])
            elif line.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line); s.decls.add(m.group(1))
            elif line.startswith('%') and ' = type ' in line:
                n, d = line.split(' = type ', 1)
                if d.strip() != 'opaque':
                    s.types[n[1:].strip('"')] = P(tokenize(d)).ty()
            elif line.startswith('@'):
                s.parse_global(line)
            elif line.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', line)
                if m: s.meta[int(m.group(1))] = m.group(2)
    def parse_global(s, line):
        line = re.sub(r'(, ![a-z_.A-Z]+ !\d+)+\s*$', '', line)
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', line)
        name = m.group(1).strip('"'); rest = m.group(2)
        rest = re.sub(r', (align|comdat|section)\b.*$', '', rest)
        m = re.match(r'((?:[a-z_]+(?:\([a-z]+\))? )*?)(global|constant) (.*)$', rest)
        if not m: return
        ext = 'external' in m.group(1)
        p = P(tokenize(m.group(3))); ty = p.ty()
        init = None if ext else p.val(ty)
        s.globals[name] = (m.group(2) == 'constant', ty, init, 'internal' in m.group(1) or 'private' in m.group(1))
    def fn(s, name):
        if name in s.fns: return s.fns[name]
        hdr, body = s.fn_text[name]
        f = Fn(name, s); f.static = ' internal ' in hdr
        m = re.search(r'!dbg !(\d+)', hdr); f.sp = int(m.group(1)) if m else None
        i = hdr.index('@' + name if '@' + name in hdr else '@"' + name)
        m = re.search(r'define\s+(.*?)$', hdr[:i]); rt = m.group(1)
        rt = re.sub(r'\b(dso_local|internal|noalias|noundef|signext|zeroext|nonnull|hidden|weak|linkonce_odr|range\([^)]*\))\b', ' ', rt)
        f.ret = P(tokenize(rt)).ty()
        args = hdr[i:]; args = args[args.index('('):]
        p = P(tokenize(args)); p.exp('(')
        while not p.acc(')'):
            if p.acc('...'): f.vararg = True; continue
            t = p.ty(); p.skip_attrs(); n = p.next()[1:].strip('"'); f.params.append((n, t)); p.acc(',')
        b = None
        joined, buf = [], ''
        for l in body:
            if not l.strip(): continue
            if buf:
                buf += ' ' + l.strip()
                if l.strip().startswith(']'): joined.append(buf); buf = ''
                continue
            if re.match(r'\s+switch ', l) and not l.rstrip().endswith(']') and '[' in l and ']' not in l[l.index('['):]:
                buf = l; continue
            joined.append(l)
        for l in joined:
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m and not l.startswith(' '):
                b = m.group(1).strip('"'); f.blocks[b] = []; f.order.append(b); continue
            if '@llvm.dbg.' in l or '@llvm.lifetime' in l: continue
            if b is None:
                b = 'entry'; f.blocks[b] = []; f.order.append(b)
            I = parse_inst(l.strip()); I.blk = b
            f.blocks[b].append(I)
        s.fns[name] = f
        return f

# --------------------------------------------------- program: modules + debug info
def meta_fields(t):
    """parse 'tag: X, name: "y", elements: !3' into dict"""
    m = re.search(r'\((.*)\)\s*$', t)
    if not m: return {}
    out = {}
    for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,]+)', m.group(1)):
        out[k] = v.strip().strip('"')
    return out

class Program:
    def __init__(s, files=None, work=None, stub=True):
        s.own = work is None
        s.work = work or tempfile.mkdtemp(prefix='vfx.')
        prep(s.work)
        srcs = sources() if files is None else [f for f in sources() if os.path.splitext(os.path.basename(f))[0] in files]
        if files is None or 'parse' in files: srcs.append(os.path.join(s.work, 'parse.c'))
        if files is not None and 'lex' in files: srcs.append(os.path.join(s.work, 'lex.c'))
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(emit_one, [(f, s.work, stub) for f in srcs]))
        s.mods = {}
        for l in lls:
            m = Module(l); s.mods[m.name] = m
        s.index = {}
        for m in s.mods.values():
            for n in m.fn_text: s.index.setdefault(n, []).append(m)
        s.structs = {}; s.enums = {}; s.fieldty = {}
        for m in s.mods.values(): s.read_di(m)
        if s.own: shutil.rmtree(s.work, ignore_errors=True)
    def find(s, name, mod=None):
        if mod is not None and name in mod.fn_text: return mod.fn(name)
        ms = s.index.get(name)
        return ms[0].fn(name) if ms else None
    def has(s, name): return name in s.index
    def type(s, mod, name):
        if name in mod.types: return mod.types[name]
        for m in s.mods.values():
            if name in m.types: return m.types[name]
        return None
    def read_di(s, m):
        def ditype(ref, depth=0):
            """-> ('ptr', T) | ('struct', name) | ('char',) | ('int',) | ..."""
            if ref in (None, 'null') or depth > 12: return ('void',)
            t = m.meta.get(int(ref[1:]), '')
            d = meta_fields(t)
            if 'DIBasicType' in t: return ('base', d.get('name'))
            if 'DIDerivedType' in t:
                tag = d.get('tag')
                if tag == 'DW_TAG_pointer_type': return ('ptr', ditype(d.get('baseType'), depth + 1))
                return ditype(d.get('baseType'), depth + 1)
            if 'DICompositeType' in t:
                tag = d.get('tag')
                if tag in ('DW_TAG_structure_type', 'DW_TAG_union_type'): return (tag[7:12], d.get('name'))
                if tag == 'DW_TAG_enumeration_type': return ('enum', d.get('name'))
                if tag == 'DW_TAG_array_type':
                    cnt = [re.search(r'count: (\d+)', m.meta[int(e[1:])]) for e in elems(d['elements'])] if d.get('elements') not in (None, 'null') else []
                    n = 1
                    for x in cnt: n *= int(x.group(1)) if x else 0
                    return ('array', ditype(d.get('baseType'), depth + 1), n)
            if 'DISubroutineType' in t: return ('fn',)
            return ('?',)
        def elems(ref):
            t = m.meta[int(ref[1:])]
            return re.findall(r'!\d+', t[t.index('{'):])
        m.ditype = ditype
        for n, t in m.meta.items():
            if 'DICompositeType' not in t: continue
            d = meta_fields(t)
            nm = d.get('name')
            if not nm or 'elements' not in d or d['elements'] == 'null': 
                if d.get('tag') == 'DW_TAG_enumeration_type' and 'elements' in d:
                    pass
                else: continue
            if d.get('tag') == 'DW_TAG_enumeration_type' :
                for e in elems(d['elements']):
                    ed = meta_fields(m.meta[int(e[1:])]); s.enums[ed['name']] = int(ed['value'])
                s.enums.setdefault('enum ' + (nm or ''), [meta_fields(m.meta[int(e[1:])])['name'] for e in elems(d['elements'])])
            elif d.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                if nm in s.structs: continue
                fl = []
                for e in elems(d['elements']):
                    et = m.meta[int(e[1:])]; ed = meta_fields(et)
                    if 'DW_TAG_member' not in et: continue
                    fl.append((ed.get('name'), ditype(ed.get('baseType')), int(ed.get('offset', 0)) // 8))
                s.structs[nm] = fl
        # anonymous enums
        for n, t in m.meta.items():
            if 'DIEnumerator(' in t:
                ed = meta_fields(t); s.enums.setdefault(ed['name'], int(ed['value']))
    def param_types(s, f):
        """DI types of return and params"""
        m = f.mod
        if f.sp is None: return None
        d = meta_fields(m.meta[f.sp].replace('distinct ', ''))
        st = meta_fields(m.meta[int(d['type'][1:])])
        t = m.meta[int(st['types'][1:])]
        items = [x.strip() for x in t[t.index('{') + 1:t.rindex('}')].split(',')]
        return [m.ditype(x) for x in items]
    def line(s, f, dbg):
        if dbg is None: return None
        d = meta_fields(f.mod.meta.get(dbg, '').replace('distinct ', ''))
        return d.get('line')

if __name__ == '__main__':
    import time
    t = time.time(); p = Program(); print('extract', time.time() - t)
    n = 0; uns = []
    for m in p.mods.values():
        for f in m.fn_text:
            fn = m.fn(f); fn.analyse(); n += 1
            for b in fn.order:
                for I in fn.blocks[b]:
                    if I.op == 'unsupported': uns.append((m.name, f, I.x))
    print(n, 'functions', time.time() - t); print(uns[:10])
    print(p.structs['policy_node']); print(p.enums['NODE_ERROR'], p.structs['check_data'])
    print(p.param_types(p.find('str_in_sl')))
