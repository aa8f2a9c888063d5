"""concrete counterpart of the parser-action contracts (only used to find a failing input):
random action histories on the real code against an independent model of tree and tables"""
import ctypes, re
from gen import CH
class N:
    def __init__(s, kind, line, parent, data=None): s.kind, s.line, s.parent, s.data, s.kids = kind, line, parent, data, []
DEC = 'DECL_TYPE DECL_ATTRIBUTE DECL_ATTRIBUTE_ROLE DECL_ROLE DECL_USER DECL_CLASS DECL_PERM DECL_BOOL'.split()
SUFF = 'type file domain node agent delivery sender boolean content constrained executable exemption object mountpoint'.split()
BL = {'define': 'NODE_DEFINE', 'optional_policy': 'NODE_OPTIONAL_POLICY', 'optional_else': 'NODE_OPTIONAL_ELSE', 'boolean_policy': 'NODE_BOOLEAN_POLICY', 'tunable_policy': 'NODE_TUNABLE_POLICY',
      'require': 'NODE_REQUIRE', 'ifdef': 'NODE_IFDEF', 'ifelse': 'NODE_IFELSE', 'm4_argument': 'NODE_M4_ARG', 'gen_require': 'NODE_GEN_REQ'}
NAMES = [b'foo_t', b'bar_t', b'foo_r', b'$1', b'$1_t', b'x', b'process', b'associate', b'file', b'dir', b'$2_u', b'read', b'pre$', b'processes', b'']
IFN = [b'foo_type', b'foo_filetrans', b'filetrans_pattern', b'filetrans_add_pattern', b'bar_domain', b'bar', b'foo_filetrans_x', b'filetrans', b'_filetrans', b'x_file', b'foo_node', b'domtypes', b'foo_agent', b'a_b_mountpoint', b'foo_types', b'filetrans_patterns', b'tmpl1', b'tmpl2', b'xfiletrans', b'foo_delivery', b'foo_sender', b'b_boolean', b'c_content', b'd_constrained', b'e_executable', b'f_exemption', b'g_object']
def ast_case(con, nat, w):
    r = w.rng; h = CH(w); E = w.prog.enums
    nat.fn('free_all_maps')()
    ctypes.c_uint64.from_address(nat.addr('module_name')).value = 0
    top = w.node('NODE_TE_FILE'); cc = w.alloc(8); ctypes.c_uint64.from_address(cc).value = top
    root = N('NODE_TE_FILE', 1, None); pseudo = N('file', 0, None); pseudo.kids = [root]; cur = root
    addr = {id(root): top}
    decls, tdecl, tcall, ifs, marks, tmpl = {}, {}, {}, {}, set(), set()
    hist = []; mod = None
    focus = con.name
    acts = ['comment', 'semicolon', 'header', 'type_alias', 'permissive_statement', 'm4simplemacro', 'role_allow', 'role_transition', 'xperm_av_rule', 'av_rule', 'role_types', 'type_transition',
            'interface_call', 'declaration', 'type_attribute', 'role_attribute', 'aliases', 'module', 'interface', 'interface', 'endif', 'rawchild'] + list(BL) + ['end', 'end', 'end', 'endany']
    fav = None
    for a in acts:
        if focus.endswith('_' + a) or focus in ('begin_' + a, 'end_' + a): fav = a
    if focus == 'begin_interface_def': fav = 'interface'
    if focus == 'end_interface_def': fav = 'endif'
    if focus == 'insert_policy_node_child': fav = 'rawchild'
    def sub(s, args):
        return re.sub(rb'\$(\d+)', lambda m: args[int(m.group(1)) - 1] if 1 <= int(m.group(1)) <= len(args) else b'', s)
    def expand(name, args, par):
        if name in par: return False
        for n, a in tcall.get(name, []):
            if not expand(n, [sub(x, args) for x in a], par + [name]): return False
        for f, n in tdecl.get(name, []): decls.setdefault((f, sub(n, args)), mod)
        return True
    def anc(n):
        n = n.parent
        while n: yield n; n = n.parent
    def tname(n): return next((x.data for x in anc(n) if x.kind == 'NODE_TEMP_DEF'), None)
    def inreq(n): return any(x.kind in ('NODE_REQUIRE', 'NODE_GEN_REQ') for x in anc(n))
    def inif(n): return n.parent and n.parent.kind == 'NODE_INTERFACE_DEF'
    def sl(lo=0, hi=3, pool=NAMES): return [r.choice(pool) for i in range(r.randrange(lo, hi + 1))]
    def S(p): return ctypes.string_at(p) if p else None
    def L(p):
        o = []
        while p and len(o) < 50: o.append(S(h.f(p, 'string_list', 'string'))); p = h.f(p, 'string_list', 'next')
        return o
    FLD = {'NODE_HEADER': ('header_data', 'flavor', 'module_name$'), 'NODE_ROLE_ALLOW': ('role_allow_data', 'from*', 'to*'), 'NODE_RT_RULE': ('role_transition_data', 'sources*', 'targets*', 'object_classes*', 'default_role$'),
      'NODE_XAV_RULE': ('xav_rule_data', 'flavor', 'sources*', 'targets*', 'object_classes*', 'operation$', 'perms*'), 'NODE_AV_RULE': ('av_rule_data', 'flavor', 'sources*', 'targets*', 'object_classes*', 'perms*'),
      'NODE_ROLE_TYPES': ('role_types_data', 'role$', 'types*'), 'NODE_TT_RULE': ('type_transition_data', 'flavor', 'sources*', 'targets*', 'object_classes*', 'default_type$', 'name$'),
      'NODE_IF_CALL': ('if_call_data', 'name$', 'args*'), 'NODE_DECL': ('declaration_data', 'flavor', 'name$', 'attrs*'), 'NODE_TYPE_ATTRIBUTE': ('attribute_data', 'flavor', 'type$', 'attrs*'),
      'NODE_ROLE_ATTRIBUTE': ('attribute_data', 'flavor', 'type$', 'attrs*')}
    STR = ('NODE_TYPE_ALIAS', 'NODE_PERMISSIVE', 'NODE_M4_SIMPLE_MACRO', 'NODE_ALIAS', 'NODE_INTERFACE_DEF', 'NODE_TEMP_DEF')
    def content(kind, d):
        if kind in STR: return S(d)
        if kind == 'NODE_GEN_REQ': return None if not d else h.f(d, 'gen_require_data', 'unquoted')
        if kind not in FLD: return None if not d else 'content'
        if not d: return 'no content'
        st = FLD[kind][0]; out = []
        for f in FLD[kind][1:]:
            v = h.f(d, st, f.rstrip('*$')); out.append(L(v) if f[-1] == '*' else S(v) if f[-1] == '$' else v)
        return out
    K = E['enum node_flavor']
    def compare():
        def cmp(m, p, parent, prev):
            if not p: return 'element missing: %s of line %d' % (m.kind, m.line)
            fl = h.f(p, 'policy_node', 'flavor')
            if K[fl] != m.kind: return 'element of line %d is a %s, expected %s' % (m.line, K[fl], m.kind)
            if m.line and h.f(p, 'policy_node', 'lineno') != m.line: return '%s has line %d, expected %d' % (m.kind, h.f(p, 'policy_node', 'lineno'), m.line)
            if h.f(p, 'policy_node', 'parent') != parent: return '%s of line %d: wrong parent link' % (m.kind, m.line)
            if h.f(p, 'policy_node', 'prev') != prev: return '%s of line %d: wrong prev link' % (m.kind, m.line)
            if h.f(p, 'policy_node', 'exceptions'): return '%s of line %d: unexpected suppression text' % (m.kind, m.line)
            g = content(m.kind, h.f(p, 'policy_node', 'data'))
            if m.kind == 'NODE_GEN_REQ' and m.data is None: g = None
            if g != m.data: return '%s of line %d: content %r, expected %r' % (m.kind, m.line, g, m.data)
            q = h.f(p, 'policy_node', 'first_child'); pv = 0
            for k in m.kids:
                e = cmp(k, q, p, pv)
                if e: return e
                addr[id(k)] = q; pv = q; q = h.f(q, 'policy_node', 'next')
            if q: return '%s of line %d: unexpected extra child' % (m.kind, m.line)
        q = top; pv = 0
        for k in pseudo.kids:
            e = cmp(k, q, 0, pv)
            if e: return e
            addr[id(k)] = q; pv = q; q = h.f(q, 'policy_node', 'next')
        if q: return 'unexpected element at the end of the file'
        if ctypes.c_uint64.from_address(cc).value != addr[id(cur)]: return 'the current element is not the expected %s of line %d' % (cur.kind, cur.line)
        for f in DEC:
            for n in set(NAMES + [x[1] for x in decls]):
                g = S(nat.fn('look_up_in_decl_map')(w.str(n), E[f]))
                if g != decls.get((E[f], n)): return '%s %r is recorded for module %r, expected %r' % (f, n, g, decls.get((E[f], n)))
        for n in IFN:
            b = w.str(n)
            if S(nat.fn('look_up_in_ifs_map')(b)) != ifs.get(n): return 'interface %r is recorded for module %r, expected %r' % (n, S(nat.fn('look_up_in_ifs_map')(b)), ifs.get(n))
            for k, fn in (('transform', 'is_transform_if'), ('filetrans', 'is_filetrans_if'), ('role', 'is_role_if')):
                if bool(nat.fn(fn)(b)) != ((k, n) in marks): return 'interface %r marked %s: %s, expected %s' % (n, k, bool(nat.fn(fn)(b)), (k, n) in marks)
            got = []; p = nat.fn('look_up_decl_in_template_map')(b)
            while p and len(got) < 60: d = h.f(p, 'decl_list', 'decl'); got.append((h.f(d, 'declaration_data', 'flavor'), S(h.f(d, 'declaration_data', 'name')))); p = h.f(p, 'decl_list', 'next')
            if got != tdecl.get(n, []): return 'declarations recorded for template %r: %r, expected %r' % (n, got, tdecl.get(n, []))
            got = []; p = nat.fn('look_up_call_in_template_map')(b)
            while p and len(got) < 60: d = h.f(p, 'if_call_list', 'call'); got.append((S(h.f(d, 'if_call_data', 'name')), L(h.f(d, 'if_call_data', 'args')))); p = h.f(p, 'if_call_list', 'next')
            if got != tcall.get(n, []): return 'calls recorded for template %r: %r, expected %r' % (n, got, tcall.get(n, []))
            if bool(nat.fn('look_up_in_template_map')(b)) != (n in tmpl): return 'template %r' % n
        return None
    line = 0
    RC = {v: k for k, v in E.items() if k.startswith('SELINT_') and isinstance(v, int)}
    def add(kind, data):
        nonlocal cur
        sib = cur.parent.kids if cur.parent else pseudo.kids
        n = N(kind, line, cur.parent, data); sib.append(n); cur = n
    def cslist(l):
        p = w.sl(l)
        return nat.fn('copy_string_list')(p) if p else 0
    seq = []
    mn0 = r.choice([b'modA', b'mls', b'mcs', b'modB'])
    for i in range(r.randrange(1, 22)):
        a = r.choice(acts)
        if fav and r.random() < .3: a = fav
        if i == 0 and r.random() < .85: a = 'module'
        if cur.parent is None and cur.kind == 'NODE_TE_FILE' and r.random() < .3: a = r.choice(['interface', 'comment'])
        line += r.randrange(1, 3); good = True; expect = 'SELINT_SUCCESS'
        call = None
        if a == 'module':
            m = r.choice([mn0, b'modA', b'other']); hist.append('module %s' % m.decode()); nat.fn('set_current_module_name')(w.str(m)); mod = m; continue
        if a in ('comment', 'semicolon'): call = ('insert_' + a, line); add('NODE_' + a.upper(), None)
        elif a == 'header': x = r.choice(NAMES); f = r.randrange(2); call = ('insert_header', w.str(x), f, line); add('NODE_HEADER', [f, x])
        elif a in ('type_alias', 'permissive_statement'): x = r.choice(NAMES); call = ('insert_' + a, w.str(x), line); add('NODE_TYPE_ALIAS' if a == 'type_alias' else 'NODE_PERMISSIVE', x)
        elif a == 'm4simplemacro': x = r.choice(NAMES); call = ('insert_' + a, w.str(x), line); add('NODE_M4_SIMPLE_MACRO', x)
        elif a == 'role_allow': x, y = sl(), sl(); call = ('insert_' + a, cslist(x), cslist(y), line); add('NODE_ROLE_ALLOW', [x, y])
        elif a == 'role_transition': x, y, z, d = sl(), sl(), sl(), r.choice(NAMES); call = ('insert_' + a, cslist(x), cslist(y), cslist(z), w.str(d), line); add('NODE_RT_RULE', [x, y, z, d])
        elif a == 'xperm_av_rule': f, x, y, z, o, p = r.randrange(4), sl(), sl(), sl(), r.choice(NAMES), sl(); call = ('insert_' + a, f, cslist(x), cslist(y), cslist(z), w.str(o), cslist(p), line); add('NODE_XAV_RULE', [f, x, y, z, o, p])
        elif a == 'av_rule':
            f, x, y, z, p = r.randrange(4), sl(), sl(), sl(), sl(); call = ('insert_' + a, f, cslist(x), cslist(y), cslist(z), cslist(p), line)
            if inif(cur) and b'associate' in p: marks.add(('transform', cur.parent.data))
            add('NODE_AV_RULE', [f, x, y, z, p])
        elif a == 'role_types':
            x, l = r.choice(NAMES), sl(); call = ('insert_' + a, w.str(x), cslist(l), line)
            if inif(cur) and any(t[:1] == b'$' for t in l): marks.add(('role', cur.parent.data))
            add('NODE_ROLE_TYPES', [x, l])
        elif a == 'type_transition':
            f, x, y, z, d, n = r.randrange(4), sl(), sl(), sl(), r.choice(NAMES), r.choice([None] + NAMES); call = ('insert_' + a, f, cslist(x), cslist(y), cslist(z), w.str(d), w.str(n) if n is not None else 0, line)
            if inif(cur) and b'process' not in z: marks.add(('filetrans', cur.parent.data))
            add('NODE_TT_RULE', [f, x, y, z, d, n])
        elif a == 'interface_call':
            x, l = r.choice(IFN), sl(1, 3, [b'foo_t', b'a', b'bar', b'process'] + ([b'$1'] if tname(cur) else [])); call = ('insert_' + a, w.str(x), cslist(l), line)
            if tname(cur) is not None: tcall.setdefault(tname(cur), []).append((x, l)); tmpl.add(tname(cur))
            elif not expand(x, l, []): return None
            if inif(cur) and (x in (b'filetrans_pattern', b'filetrans_add_pattern') or (b'_' in x and x[x.rindex(b'_'):] == b'_filetrans')): marks.add(('filetrans', cur.parent.data))
            add('NODE_IF_CALL', [x, l])
        elif a == 'declaration':
            f, x, l = E[r.choice(DEC)], r.choice(NAMES), sl(); call = ('insert_' + a, f, w.str(x), cslist(l), line)
            if not inreq(cur):
                t = tname(cur)
                if t is not None: tdecl.setdefault(t, []).append((f, x)); tmpl.add(t)
                elif x[:1] != b'$':
                    if mod is None: expect = 'SELINT_NO_MOD_NAME'
                    else: decls.setdefault((f, x), mod)
            if expect == 'SELINT_SUCCESS': add('NODE_DECL', [f, x, l])
        elif a in ('type_attribute', 'role_attribute'):
            if mod is None: continue
            x, l = r.choice(NAMES), sl(); call = ('insert_' + a, w.str(x), cslist(l), line)
            nm = cur.parent.data if inif(cur) else b''
            if inif(cur) and (mod in (b'mls', b'mcs') or (b'_' in nm and nm[nm.rindex(b'_') + 1:] in [q.encode() for q in SUFF])): marks.add(('transform', nm))
            add('NODE_' + a.upper(), [0 if a == 'type_attribute' else 1, x, l])
            if E['ATTR_TYPE'] != 0: cur.data[0] = E['ATTR_TYPE'] if a == 'type_attribute' else E['ATTR_ROLE']
        elif a == 'aliases':
            if cur.kids: pass
            if cur.kind in ('NODE_TEMP_DEF', 'NODE_TE_FILE'): continue
            l = sl(1, 3); f = E['DECL_TYPE']; call = ('insert_aliases', cslist(l), f, line)
            t = tname(cur)
            if t is None and mod is None: expect = 'SELINT_NO_MOD_NAME'
            else:
                for x in l:
                    if t is not None: tdecl.setdefault(t, []).append((f, x)); tmpl.add(t)
                    else: decls.setdefault((f, x), mod)
                    cur.kids.append(N('NODE_ALIAS', line, cur, x))
        elif a == 'interface':
            if mod is None: continue
            k = r.choice(['NODE_INTERFACE_DEF', 'NODE_INTERFACE_DEF', 'NODE_TEMP_DEF', 'NODE_IFDEF' if r.random() < .1 else 'NODE_TEMP_DEF']); x = r.choice(IFN)
            call = ('begin_interface_def', E[k], w.str(x), line)
            if k == 'NODE_IFDEF': expect = 'SELINT_BAD_ARG'
            else:
                if k == 'NODE_TEMP_DEF': tmpl.add(x)
                ifs.setdefault(x, mod); add(k, x); n = N('NODE_START_BLOCK', line, cur); cur.kids.append(n); cur = n
        elif a in BL:
            call = ('begin_' + a, line); add(BL[a], None); n = N('NODE_START_BLOCK', line, cur); cur.kids.append(n); cur = n
        elif a == 'rawchild':
            p = addr.get(id(cur)); k = N('NODE_EMPTY', line, cur)
            if not p: continue
            hist.append('child of %s' % cur.kind); rc = nat.fn('insert_policy_node_child')(p, E['NODE_EMPTY'], 0, line); cur.kids.append(k)
            rc2 = nat.fn('insert_policy_node_child')(0, E['NODE_EMPTY'], 0, line); rc3 = nat.fn('insert_policy_node_next')(0, E['NODE_EMPTY'], 0, line)
            if rc2 != E['SELINT_BAD_ARG'] or rc3 != E['SELINT_BAD_ARG']: return dict(obligation=con.name + ': refuses a missing parent', actual=str((rc2, rc3)), input=hist)
            e = compare()
            if e: return dict(obligation='%s: the tree and the symbol tables are as the actions describe' % con.name, actual=e, input=hist)
            continue
        else:
            pk = cur.parent.kind if cur.parent else None
            if a == 'endif': nm, want = 'interface_def', ('NODE_INTERFACE_DEF', 'NODE_TEMP_DEF')
            elif a == 'endany': nm = r.choice(list(BL)); want = (BL[nm],)
            else:
                nm = next((k for k, v in BL.items() if v == pk), None)
                if nm is None: nm, want = 'interface_def', ('NODE_INTERFACE_DEF', 'NODE_TEMP_DEF')
                else: want = (BL[nm],)
            u = r.randrange(2)
            call = ('end_' + nm,) + ((u,) if nm == 'gen_require' else ())
            if pk in want:
                cur = cur.parent
                if nm == 'gen_require': cur.data = u
            else: expect = 'SELINT_NOT_IN_BLOCK'
        if nat.addr(call[0]) is None: return None
        hist.append(call[0] + ' ' + ' '.join(str(x) if not isinstance(x, int) or x < 100000 else (repr(S(x)) if w.lo <= x < w.lo + w.size else repr(L(x))) for x in call[1:]))
        rc = nat.fn(call[0])(cc, *call[1:])
        if RC.get(rc) != expect: return dict(obligation='%s: fails exactly when it must' % call[0], actual='%s returned %s, expected %s' % (call[0], RC.get(rc, rc), expect), input=hist)
        e = compare()
        if e: return dict(obligation='%s: the tree and the symbol tables are as the actions describe' % call[0], actual=e, input=hist)
    return None
