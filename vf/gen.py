"""Generators of well-formed concrete inputs for the counterexample search."""
import os, re, ctypes
from irx import REPO
_pool = None
def literals():
    global _pool
    if _pool is None:
        s = set()
        for f in sorted(os.listdir(REPO + '/src')):
            if f in ('parse.c', 'lex.c', 'parse.h', 'main.c', 'color.c'): continue
            if f.endswith(('.c', '.h')):
                for m in re.finditer(r'"((?:[^"\\\n])*)"', open(os.path.join(REPO, 'src', f), errors='replace').read()):
                    t = m.group(1)
                    if '%' not in t and ' ' not in t and '\\' not in t and len(t) < 40 and not t.endswith('.h'): s.add(t.encode())
        _pool = sorted(s)
    return _pool
GENERIC = [b'foo', b'foo_t', b'foo_r', b'foo_u', b'foo_exec_t', b'foo_domtrans', b'bar', b'bar_t', b'bar_r', b'baz', b'baz_t', b'$1', b'$1_t', b'$1_r', b'$2', b'-', b'~', b'*', b'self', b'',
  b'read', b'write', b'open', b'getattr', b'file', b'dir', b'lnk_file', b'all_foo_perms', b'read_file_perms', b'rw_file_perms', b'tcp_socket', b'netlink_audit_socket', b'role', b'system_r', b'system_u', b'object_r',
  b's0', b's0:c1', b'mls_systemlow', b'fs_foo', b'foo_type', b'foo_file', b'a', b'b', b'c', b'_t', b'_', b'foo_', b'_foo', b'a_b_c', b'true', b'"lib"', b'foo_class_set', b'filesystem_x', b'-bar_t', b'ab', b'abc']
def pool(w, n=None):
    r = w.rng; out = []
    lits = literals()
    for i in range(n or r.choice([2, 3, 5, 8, 14])):
        k = r.random()
        if k < .5: out.append(r.choice(GENERIC))
        elif k < .8: out.append(r.choice(lits))
        elif k < .9: out.append(r.choice(GENERIC) + r.choice(lits))
        elif k < .95: out.append(r.choice(lits) + r.choice(GENERIC))
        else:
            b = r.choice(lits + GENERIC); i = r.randrange(len(b) + 1)
            out.append(b[:i] + r.choice([b'', b'_', b'x', b' ', b'$', b'1']) + b[i + r.randrange(2):])
    return out
class G:
    def __init__(s, w, extra=()):
        s.w, s.r = w, w.rng; s.pool = pool(w) + (list(w.rng.sample(list(extra), min(len(extra), w.rng.randrange(4)))) if extra else [])
    def s(s, empty=True):
        b = s.r.choice(s.pool)
        if s.r.random() < .05: b = pool(s.w, 1)[0]
        if not b and not empty: b = b'x'
        return b
    def optstr(s): return s.w.str(s.s()) if s.r.random() < .7 else 0
    def sl(s, lo=0, hi=4): return s.w.sl([s.s() for i in range(s.r.randrange(lo, hi + 1))])
    def slr(s, lo=1, hi=3):
        n = s.r.choice([lo, lo, lo, lo + 1, hi]); p = s.w.sl([s.s() for i in range(n)])
        q = p
        while q and s.r.random() < .3:
            s.w.set(q, 'string_list', 'has_incorrect_space', s.r.randrange(2)); q = 0
        return p
    def decl(s):
        E = s.w.prog.enums['enum decl_flavor']
        fl = s.r.choice(E)
        return s.w.obj('declaration_data', flavor=s.w.E(fl), name=s.s(), attrs=s.sl(0, 4) if s.r.random() < .6 else 0)
    def data(s, fl):
        w, r = s.w, s.r
        if fl == 'NODE_AV_RULE':
            return w.obj('av_rule_data', flavor=r.randrange(4) if r.random() < .4 else 0, sources=s.slr(), targets=s.slr(), object_classes=s.slr(), perms=s.slr(1, 4))
        if fl == 'NODE_XAV_RULE':
            return w.obj('xav_rule_data', flavor=r.randrange(4), sources=s.slr(), targets=s.slr(), object_classes=s.slr(), perms=s.slr(1, 4), operation=s.s())
        if fl == 'NODE_TT_RULE':
            return w.obj('type_transition_data', sources=s.slr(), targets=s.slr(), object_classes=s.slr(), default_type=s.s(), name=s.optstr(), flavor=r.randrange(4))
        if fl == 'NODE_RT_RULE': return w.obj('role_transition_data', sources=s.slr(), targets=s.slr(), object_classes=s.slr(), default_role=s.s())
        if fl == 'NODE_HEADER': return w.obj('header_data', flavor=r.randrange(2), module_name=s.s())
        if fl == 'NODE_ROLE_ALLOW': return w.obj('role_allow_data', **{'from': s.slr(), 'to': s.slr()})
        if fl == 'NODE_ROLE_TYPES': return w.obj('role_types_data', role=s.s(), types=s.slr())
        if fl == 'NODE_DECL': return s.decl()
        if fl == 'NODE_IF_CALL': return w.obj('if_call_data', name=s.s(), args=s.ifargs())
        if fl in ('NODE_TYPE_ATTRIBUTE', 'NODE_ROLE_ATTRIBUTE'): return w.obj('attribute_data', type=s.s(), attrs=s.slr() if r.random() < .9 else 0, flavor=0 if fl == 'NODE_TYPE_ATTRIBUTE' else 1)
        if fl == 'NODE_GEN_REQ': return w.obj('gen_require_data', unquoted=r.randrange(2))
        if fl in ('NODE_ALIAS', 'NODE_TYPE_ALIAS', 'NODE_PERMISSIVE', 'NODE_M4_SIMPLE_MACRO', 'NODE_INTERFACE_DEF', 'NODE_TEMP_DEF'): return w.str(s.s())
        if fl == 'NODE_COMMENT': return w.str(s.s()) if r.random() < .3 else 0
        if fl == 'NODE_FC_ENTRY': return s.fc()
        return 0
    def ifargs(s):
        p = s.sl(0, 3); q = p; w = s.w
        while q:
            w.set(q, 'string_list', 'has_incorrect_space', int(s.r.random() < .25))
            q = CH(w).f(q, 'string_list', 'next')
        return p
    def path(s):
        r = s.r
        return b''.join(r.choice([b'/', b'usr', b'.', b'*', b'\\', b'\\.', b'(', b')', b'[', b']', b'^', b'-', b'+', b'?', b'a', b'/.*', b'(/.*)?', b'[^/]', b'{', b'}', b'$', b'|', b'\\[', b'\\(', b'x', b'\\\\', b'HOME_DIR']) for i in range(r.randrange(1, 8)))
    def fc(s):
        w, r = s.w, s.r
        ctx = 0
        if r.random() < .85:
            ctx = w.obj('sel_context', has_gen_context=r.randrange(2), user=s.s(), role=s.s(), type=s.s(), range=s.optstr())
        return w.obj('fc_entry', path=s.path(), obj=r.choice([0, ord('f'), ord('d'), ord('-'), ord('p'), ord('b'), ord('c'), ord('l'), ord('s')]), context=ctx)
    BLOCK = ['NODE_INTERFACE_DEF', 'NODE_TEMP_DEF', 'NODE_OPTIONAL_POLICY', 'NODE_OPTIONAL_ELSE', 'NODE_BOOLEAN_POLICY', 'NODE_TUNABLE_POLICY', 'NODE_IFDEF', 'NODE_IFELSE', 'NODE_M4_ARG', 'NODE_REQUIRE', 'NODE_GEN_REQ', 'NODE_M4_CALL', 'NODE_DEFINE']
    LEAF = ['NODE_AV_RULE', 'NODE_XAV_RULE', 'NODE_TT_RULE', 'NODE_RT_RULE', 'NODE_HEADER', 'NODE_ROLE_ALLOW', 'NODE_ROLE_TYPES', 'NODE_DECL', 'NODE_ALIAS', 'NODE_TYPE_ALIAS', 'NODE_TYPE_ATTRIBUTE', 'NODE_ROLE_ATTRIBUTE',
            'NODE_M4_SIMPLE_MACRO', 'NODE_START_BLOCK', 'NODE_IF_CALL', 'NODE_PERMISSIVE', 'NODE_COMMENT', 'NODE_SEMICOLON', 'NODE_EMPTY', 'NODE_FC_ENTRY']
    def tree(s, want=(), must=True, blocks=(), leaves=()):
        """a random file tree; returns (root, node under test)"""
        w, r = s.w, s.r
        budget = [r.choice([2, 4, 8, 14, 22])]; allnodes = []
        lv = (list(want) * 4 + list(leaves) * 3 + s.LEAF)
        bl = (list(blocks) * 3 + s.BLOCK + [x for x in want if x in s.BLOCK] * 4)
        def mk(parent, depth):
            kids = []
            while budget[0] > 0 and (r.random() < .75 or not kids):
                budget[0] -= 1
                if depth < 5 and r.random() < .35: fl = r.choice(bl)
                else: fl = r.choice(lv)
                if want and r.random() < .25: fl = r.choice(list(want))
                n = w.node(fl, s.data(fl), parent, lineno=len(allnodes) + 1)
                allnodes.append((fl, n)); kids.append(n)
                if fl in s.BLOCK and (fl in ('NODE_REQUIRE', 'NODE_GEN_REQ') or r.random() < .85):
                    if depth < 6: mk(n, depth + 1)
                    if not CH(w).f(n, 'policy_node', 'first_child') and fl in ('NODE_REQUIRE', 'NODE_GEN_REQ'):
                        k = w.node('NODE_START_BLOCK', 0, n); w.adopt(n, [k])
            w.adopt(parent, kids)
        rootfl = r.choice(['NODE_TE_FILE', 'NODE_IF_FILE', 'NODE_FC_FILE'])
        root = w.node(rootfl); allnodes.append((rootfl, root)); mk(root, 0)
        c = [n for fl, n in allnodes if not want or fl in want]
        if not c:
            fl = r.choice(list(want)); n = w.node(fl, s.data(fl), 0, lineno=1); allnodes.append((fl, n))
            if fl not in ('NODE_TE_FILE', 'NODE_IF_FILE', 'NODE_FC_FILE'):
                kids = []; k = CH(w).f(root, 'policy_node', 'first_child')
                while k: kids.append(k); k = CH(w).f(k, 'policy_node', 'next')
                w.adopt(root, kids + [n])
            if fl in ('NODE_REQUIRE', 'NODE_GEN_REQ'): w.adopt(n, [w.node('NODE_START_BLOCK', 0, n)])
            c = [n]
        return root, r.choice(c), allnodes
    def check_data(s, mod=None):
        w = s.w
        cfg = w.obj('config_check_data')
        for n, di, o in w.prog.structs['config_check_data']:
            if di == ('ptr', ('struc', 'string_list')): w.set(cfg, 'config_check_data', n, s.sl(0, 3))
            elif di[0] == 'array':
                v = [w.E(x) for x in w.prog.enums['enum decl_flavor']]; s.r.shuffle(v)
                w.set(cfg, 'config_check_data', n, v[:di[2]])
            elif di[0] in ('enum', 'base'): w.set(cfg, 'config_check_data', n, s.r.randrange(3))
        m = mod or s.s(False)
        fn = m + s.r.choice([b'.te', b'.if', b'.fc', b'']) if s.r.random() < .7 else s.s(False)
        return w.obj('check_data', mod_name=m, filename=fn, flavor=s.r.randrange(3), config_check_data=cfg)
    def maps(s):
        w, r = s.w, s.r; nat = w.nat
        for f in ('free_all_maps',): nat.fn(f)()
        def b(x): return w.str(x)
        E = w.prog.enums['enum decl_flavor']
        for i in range(r.choice([0, 1, 3, 6, 10])):
            k = r.randrange(9); n = s.s(False); m = s.s(False)
            if k <= 3:
                fl = r.choice(E); nat.fn('insert_into_decl_map')(b(n), b(m), w.E(fl)); w.notes.append('declared %s %s in module %s' % (fl, n.decode('latin1'), m.decode('latin1')))
            elif k == 4: nat.fn('insert_into_ifs_map')(b(n), b(m)); w.notes.append('interface %s in module %s' % (n.decode('latin1'), m.decode('latin1')))
            elif k == 5: 
                st = r.choice([b'base', b'module', b'off']); nat.fn('insert_into_mods_map')(b(n), b(st)); w.notes.append('module %s status %s' % (n.decode('latin1'), st.decode()))
            elif k == 6: nat.fn('insert_into_mod_layers_map')(b(n), b(m)); w.notes.append('module %s layer %s' % (n.decode('latin1'), m.decode('latin1')))
            elif k == 7: nat.fn('insert_template_into_template_map')(b(n)); w.notes.append('template %s' % n.decode('latin1'))
            else:
                f = r.choice(['mark_transform_if', 'mark_filetrans_if', 'mark_role_if']); nat.fn(f)(b(n)); w.notes.append('%s %s' % (f, n.decode('latin1')))
def CH(w):
    from cx import CHeap
    return CHeap(w)

def gen_check(nodefl, extra=(), blocks=(), leaves=()):
    def gen(w):
        g = G(w, extra)
        g.maps()
        root, n, _ = g.tree(nodefl, blocks=blocks, leaves=leaves)
        return [g.check_data(), n]
    return gen
def by_types(con, nodefl=()):
    """default generator from parameter types"""
    def gen(w):
        g = G(w); g.maps()
        F = w.prog.find(con.name); pts = w.prog.param_types(F); out = []
        node = None
        for i, (n, t) in enumerate(F.params):
            d = pts[i + 1]
            if d[0] == 'ptr':
                e = d[1]
                if e == ('base', 'char'): out.append(w.str(g.s()))
                elif e == ('struc', 'string_list'): out.append(g.sl())
                elif e == ('struc', 'policy_node'): out.append(g.tree(nodefl)[1])
                elif e == ('struc', 'check_data'): out.append(g.check_data())
                else: return None
            elif d[0] == 'enum': out.append(w.rng.randrange(len(w.prog.enums.get('enum ' + (d[1] or ''), [0] * 3))))
            else: out.append(w.rng.choice([0, 1, 2, 5, 65, 67, 83, 87, 69, 70]))
        return out
    return gen

def gen_ends_with(w):
    g = G(w); a = g.s()
    b = g.s() if w.rng.random() < .3 else a[w.rng.randrange(len(a) + 1):]
    if w.rng.random() < .2 and b: b = b[:-1] + b'q'
    return [w.str(a), len(a), w.str(b), len(b)]
