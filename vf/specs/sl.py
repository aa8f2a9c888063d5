"""string_list.c: lists of names"""
from specs.te import *
from specs.run import isnew
import cx, gen
SLF = ('next', 'string', 'has_incorrect_space')
def SP(h, l): return h.f(l, 'string_list', 'has_incorrect_space')
def SPtr(h, l): return h.f(l, 'string_list', 'string')
LastS = RecFn('LastS', [BV64], BV64, lambda h, n: If(isz(NX(h, n)), n, lambda: LastS(h, NX(h, n))))
# b is a copy of list a in storage of its own
CopyOf = RecFn('CopyOf', [BV64, BV64], BOOL, lambda h, a, b: If(isz(a), isz(b), lambda: And(nz(b), isnew(h, b), isnew(h, SPtr(h, b)), nz(SPtr(h, b)),
    Eq(SV(h, a), SV(h, b)), Eq(SP(h, a), SP(h, b)), CopyOf(h, NX(h, a), NX(h, b)))))
def sl_ok(h, l): return Or(isz(l), h.valid(l, 'string_list'))
add(Contract('copy_string_list', label='copy', pre=lambda h, l: [('list valid', sl_ok(h, l))],
    post=lambda h0, h1, r, l: [('the copy has the same elements in the same order, in storage of its own', CopyOf(h1, l, r)) if not h1.concrete else ('same elements', c_list(h0, l) == c_list(h1, r) and not c_share(h1, l, r))],
    loopsum=[('copy', lambda hA, hX, a, b: CopyOf(hX, a, b)), ('copy of the rest', lambda hA, hX, a, b: CopyOf(hX, a, NX(hX, b))), ('copy of the rest after both', lambda hA, hX, a, b: CopyOf(hX, NX(hX, a), NX(hX, b))),
             ('copy of the rest after the last', lambda hA, hX, a, b: Implies(nz(b), CopyOf(hX, a, NX(hX, b)))), ('start is kept', lambda hA, hX, r, x: Implies(nz(r), Eq(x, r)), 'exit'), ('start is the copy', lambda hA, hX, a, r, x: Implies(isz(r), CopyOf(hX, a, x)), 'exit')], ptr_types=('string_list',)), 'P07')
def c_list(h, l):
    out = []
    while l and len(out) < 1000: out.append((SV(h, l), SP(h, l))); l = NX(h, l)
    return out
def c_ptrs(h, l):
    out = set()
    while l and len(out) < 2000: out |= {l, SPtr(h, l)}; l = NX(h, l)
    return out
def c_share(h, a, b): return bool(c_ptrs(h, a) & c_ptrs(h, b))
def one_el(h0, h1, r, text, priv=True):
    return [('a new list of one element', And(nz(r), isnew(h0, r), isz(NX(h1, r)), Eq(SP(h1, r), 0))), ('that holds exactly the given text', Eq(SV(h1, r), text))] + \
           ([('in storage of its own', isnew(h0, SPtr(h1, r)))] if priv else [])
def str_ok(h, s): return [('a string', And(nz(s), h.valid(s, 'char')))]
add(Contract('sl_from_str', label='one', pre=str_ok, post=lambda h0, h1, r, s: one_el(h0, h1, r, h0.S(s))), 'P07')
add(Contract('sl_from_strn', label='one', pre=lambda h, s, n: str_ok(h, s), gen=lambda w: [w.str(b'abcdef'[:w.rng.randrange(7)]), w.rng.randrange(8)], post=lambda h0, h1, r, s, n: one_el(h0, h1, r, h0.pre(h0.S(s), n))), 'P07')
add(Contract('sl_from_str_consume', label='one', pre=str_ok, post=lambda h0, h1, r, s: one_el(h0, h1, r, h0.S(s), False) + [('which is taken over', Eq(SPtr(h1, r), s))]), 'P07')
def gen_two(w):
    g = gen.G(w); r = w.rng
    return [g.sl(0, 4), g.sl(0, 4)]
def cat_post(h0, h1, r, a, b):
    if h0.concrete: return [('the elements of the first list followed by those of the second', c_list(h1, r) == c_list(h0, a) + c_list(h0, b))]
    return [('an empty list is neutral', And(Implies(isz(a), Eq(r, b)), Implies(And(nz(a), isz(b)), Eq(r, a)))),
            ('the second list follows the last element of the first', Implies(And(nz(a), nz(b)), And(Eq(r, a), Eq(NX(h1, LastS(h0, a)), b))))]
add(Contract('concat_string_lists', label='cat', gen=gen_two, pre=lambda h, a, b: [('lists valid', And(sl_ok(h, a), sl_ok(h, b)))], post=cat_post,
    modifies=lambda h, a, b: [(('string_list', 'next'), [z3.If(And(a != 0, b != 0), LastS(h, a), bv(0))])], tails=[lambda h, p: LastS(h, p)], ptr_types=('string_list',)), 'P07')
def app_post(h0, h1, r, l, s):
    if h0.concrete: return [('the element is appended', (r == h0.E('SELINT_BAD_ARG')) if not l else (r == h0.E('SELINT_SUCCESS') and c_list(h1, l) == c_list(h0, l) + [(h0.S(s), 0)] and SPtr(h1, last_c(h1, l)) != s))]
    n = NX(h1, LastS(h0, l))
    return [('refuses no list', Iff(Eq(r, h0.E('SELINT_BAD_ARG')), isz(l))), ('succeeds otherwise', Implies(nz(l), Eq(r, h0.E('SELINT_SUCCESS'))))] + \
           [(a, Implies(nz(l), b)) for a, b in one_el(h0, h1, n, h0.S(s))]
def last_c(h, l):
    while NX(h, l): l = NX(h, l)
    return l
add(Contract('append_to_sl', label='append', pre=lambda h, l, s: [('list valid', sl_ok(h, l))] + str_ok(h, s), post=app_post,
    modifies=lambda h, l, s: [(('string_list', 'next'), [z3.If(l != 0, LastS(h, l), bv(0))])], tails=[lambda h, p: LastS(h, p)], ptr_types=('string_list',)), 'P07')

# ---- what "linking the last element to the second list" means: appending, by induction on the length of the first
Vals = z3.DeclareSort('Vals')
def VNil(h): return h.uf('vnil', [Vals])
def VCons(h, s, f, t): return h.uf('vcons', [Str, B32, Vals, Vals], s, f, t)
Val = RecFn('ListVal', [BV64], Vals, lambda h, l: If(isz(l), VNil(h), lambda: VCons(h, SV(h, l), SP(h, l), Val(h, NX(h, l)))), fuel=1)
AppV = RecFn('AppV', [BV64, Vals], Vals, lambda h, l, t: If(isz(l), t, lambda: VCons(h, SV(h, l), SP(h, l), AppV(h, NX(h, l), t))), fuel=1)
NotIn = RecFn('NotInSL', [BV64, BV64], BOOL, lambda h, x, l: If(isz(l), True, lambda: And(l != x, NotIn(h, x, NX(h, l)))), fuel=1)
def lemma_cat(c, ex):
    """h1 = h0 with last(a).next := b.  Then the value of a in h1 is the value of a followed by that of b."""
    a, b, x = z3.Const('a', BV64), z3.Const('b', BV64), z3.Const('x', BV64)
    R = ('string_list', 'next'); h0 = Heap(c, {})
    for p in (a, b): c.axiom(Or(p == 0, c.valid({}, p, 'string_list')))
    L = LastS(h0, a)
    h1 = Heap(c, {R: z3.Store(c.region({}, R), x, b)})
    c.suspend = False
    # 1. a list without x is not changed by the update (induction step; the hypothesis is the same statement for the rest)
    n = NX(h0, b)
    ih = Implies(And(n != 0, NotIn(h0, x, n)), Val(h1, n) == Val(h0, n))
    c.oblige('append lemma: a list that does not contain the updated element keeps its value', 'lemma', TRUE, Implies(And(b != 0, NotIn(h0, x, b), ih), Val(h1, b) == Val(h0, b)), None, then_assume=False)
    # 2. induction over the first list
    na = NX(h0, a); vb = Val(h0, b)
    goal = lambda p: Val(h1, p) == AppV(h0, p, vb)
    ih2 = Implies(And(na != 0, x == LastS(h0, na)), goal(na))
    c.oblige('append lemma: linking the last element to a second list appends it', 'lemma', TRUE,
             Implies(And(a != 0, b != 0, x == L, Val(h1, b) == vb, ih2, Implies(na != 0, a != LastS(h0, na))), goal(a)), None, then_assume=False)
    c.oblige('append lemma: the last element is none of the earlier ones', 'lemma', TRUE,
             Implies(And(a != 0, na != 0, Implies(NX(h0, na) != 0, rnk(c, LastS(h0, na)) < rnk(c, na)), LastS(h0, na) != 0), a != LastS(h0, na)), None, then_assume=False)
def rnk(c, p): return rank(c, p)
add(Contract('concat_string_lists', label='append lemma', ghost_pure=True, final=lemma_cat, case=lambda con, nat, w: None), 'P07')
