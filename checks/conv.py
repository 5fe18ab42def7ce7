"""Contracts of the place conversions: conversion.c (gloss of a converted unit) and terms.c (places of a converted predicate).

Ghost state: the five places of the word as they are numbered after the conversions met so far (perm[1..5]);
one se/te/ve/xe exchanges perm[1] with the place it names and touches nothing else."""
import sys, time, z3
from engine.gotovc import *
from engine import tree, par
from checks.scan import B32, B64, gread
from checks.cmavo import fld
P = 'conversion: '
I32 = T('int', 32, True)

def load():
    tree.make('rpc2x_act.tab.h', 'nonterm.h')
    return Program(tree.goto(['conversion.c', 'cmavotab.c'], 'conv')), Program(tree.goto(['terms.c', 'cmavotab.c'], 'terms'))

def struct(prog, tag):
    return prog.typ(prog.sym['tag-' + tag]['type'])

def path(prog, t, *names):
    off = 0
    for n in names:
        o, t = fld(prog, t, n)
        off += o
    return off, t

def swap(perm, p):
    """the exchange of place 1 with place p (p symbolic, 2..5)"""
    new = {k: z3.If(p == k, perm[1], perm[k]) for k in range(2, 6)}
    new[1] = z3.If(p == 2, perm[2], z3.If(p == 3, perm[3], z3.If(p == 4, perm[4], perm[5])))
    return new

def perm_of(st):
    return {k: G(st, 'perm%d' % k) for k in range(1, 6)}

def set_perm(st, perm):
    for k in range(1, 6):
        setG(st, 'perm%d' % k, z3.simplify(perm[k]))

def arrays(eng, prog, s):
    """the local arrays that hold place numbers: (name, function index -> value)"""
    fids = {fr[0] for fr in s.frames}
    for key, o in list(s.env.items()):
        if key[0] == 'obj' and key[1] in fids and isinstance(o, int):
            t = prog.typ(prog.sym[key[2]]['type'])
            if t.k != 'array':
                continue
            et = t.to if isinstance(t.to, T) else prog.typ(t.to)
            off = 0
            if et.k == 'struct':
                if 'pos' not in [f[0] for f in et.fields]:
                    continue
                off, it = fld(prog, et, 'pos')
            elif et.k == 'int' and et.w == 32:
                it = et
            else:
                continue
            yield key[2], o, prog.sizeof(et), off, it

def quiet(eng, f):
    sf, eng.safety = eng.safety, False
    try:
        return f()
    finally:
        eng.safety = sf

def agree(eng, prog, s):
    """candidates: which place arrays agree with the ghost, place by place"""
    out = []
    perm = perm_of(s)
    for nm, o, es, off, it in arrays(eng, prog, s):
        for k in range(1, 6):
            v = bv(quiet(eng, lambda: eng.read(s, Ptr(o, k * es + off), it)), 32)
            out.append(('%s[%d]' % (nm.split('::')[-1], k), v == perm[k]))
    return out

def code_of_words(prog):
    """code -> word for the words of selma'o SE, from the table in the program and the reference list"""
    from checks import cmavo
    return cmavo.reference()

# ------------------------------------------------------------------ se, te, ve, xe -> 2..5
PLACE = {'se': 2, 'te': 3, 've': 4, 'xe': 5}

def words_of_table(prog):
    """index -> word, read from the compiled table"""
    import os
    d = tree.src()
    c = os.path.join(tree.scratch(), 'cmtab.c')
    with open(c, 'w') as f:
        f.write('#include <stdio.h>\n#include "cmavotab.h"\n#include "cmavotab.c"\nint main(){for(int i=0;i<(int)(sizeof cmavo_table/sizeof *cmavo_table);i++)printf("%d %s\\n",i,cmavo_table[i].cmavo?cmavo_table[i].cmavo:"");return 0;}\n')
    tree.sh(['gcc', '-w'] + tree.CFLAGS + ['-I', d, c, '-o', c + '.x'])
    return {int(l.split()[0]): l.split()[1] for l in tree.sh([c + '.x']).decode('latin-1').split('\n') if len(l.split()) == 2}

def text_strcmp(e):
    def strcmp(eng, s, a, ts):
        def lit(p):
            p = eng.fix_off(s, eng._resolve(s, p))
            b = b''
            while True:
                v = eng.read(s, Ptr(p.obj, p.off + len(b)), T('int', 8, False))
                v = v if isinstance(v, int) else z3.simplify(v).as_long()
                if not v & 255:
                    return b
                b += bytes([v & 255])
        x, y = lit(a[0]), lit(a[1])
        return [(s, (x > y) - (x < y))]
    e.contracts['strcmp'] = strcmp

def exchange(prog, fn, words, SE):
    """the place named by each word of selma'o SE"""
    es = []
    TN = struct(prog, 'treenode')
    o_code, t_code = path(prog, TN, 'data', 'cmavo', 'code')
    o_sel, t_sel = path(prog, TN, 'data', 'cmavo', 'selmao')
    for code, w in sorted(words.items()):
        if w not in PLACE:
            continue
        e = Engine(prog)
        st = State()
        text_strcmp(e)
        e.const_globals |= {'cmavo_table'}
        X = z3.Int('node')
        st.assume(X != 0)
        e.write(st, Ptr(X, o_code), t_code, code)
        e.write(st, Ptr(X, o_sel), t_sel, SE)
        e.contracts['strip_attitudinal'] = lambda eng, s, a, ts: [(s, a[0])]
        res = e.run_function(st, fn, [Ptr(X, 0)])
        for s, r in res:
            e.oblige(s, P + '%s names place %d' % (w, PLACE[w]), not isinstance(r, tuple) and bv(r, 32) == PLACE[w], fn)
        e.oblige(State(), 'vacuity: %s returns for %s' % (fn, w), len(res) > 0, fn)
        es.append(e)
    return es

# ------------------------------------------------------------------ terms.c
def chain(prog, fn):
    """assign_conversion / assign_places over an arbitrary chain of at most 20 conversions and linked arguments"""
    e = Engine(prog)
    st = State()
    L = struct_of_param(prog, 'assign_conversion', 0)
    size = prog.sizeof(L)
    o_n, t_n = fld(prog, L, 'n')
    o_e, t_e = fld(prog, L, 'e')
    E = t_e.to if isinstance(t_e.to, T) else prog.typ(t_e.to)
    ese = prog.sizeof(E)
    cap = prog.sizeof(t_e) // ese
    o_t, t_t = fld(prog, E, 'type')
    o_c, t_c = path(prog, E, 'data', 'se', 'conv')
    o_s, t_s = path(prog, E, 'data', 'se', 'senode')
    o_l, t_l = path(prog, E, 'data', 'links')
    en = consts(['LC_LINKS', 'LC_SE', 'LC_JAI', 'LC_TAG'], 'terms.c')
    LC = e.new_obj(st, 'chain', size)
    n = z3.BitVec('n', 32)
    st.assume(z3.And(n >= 0, n <= cap))
    e.write(st, Ptr(LC, o_n), t_n, n)
    typ = z3.Array('entry.type', z3.BitVecSort(64), z3.BitVecSort(32))
    def field(s, g, o, t):
        return quiet(e, lambda: e.read(s, Ptr(LC, o_e + g * ese + o), t))
    def inst(s, g):
        """entries of the chain are well formed"""
        ty = bv(field(s, g, o_t, t_t), 32)
        c = bv(field(s, g, o_c, t_c), 32)
        ok = [en['LC_LINKS'], en['LC_SE']] + ([en['LC_JAI'], en['LC_TAG']] if fn == 'assign_conversion' else [])
        here = z3.And(g >= 0, g < z3.SignExt(32, n))
        s.assume(z3.Implies(here, z3.And(z3.Or(*[ty == v for v in ok]), z3.Implies(ty == en['LC_SE'], z3.And(c >= 2, c <= 5)))))
        return ty, c
    set_perm(st, {k: B32(k) for k in range(1, 6)})
    setG(st, 'g', z3.simplify(z3.SignExt(32, n) - 1))
    NODE = z3.Int('convertible')
    st.assume(NODE != 0)
    def prop_dont_gloss(eng, s, a, ts):
        return [(s, fresh_ptr('dontgloss'))]
    def prop_conversion(eng, s, a, ts):
        o = eng.new_obj(s, 'annotation', 64)
        eng.oblige(s, P + 'the conversion is stored on the word itself', peq(a[0], Ptr(NODE, 0)), eng.where(s))
        s.ghost['ext'] = o
        return [(s, Ptr(o, 0))]
    def terms(eng, s, a, ts):
        # places handed out under the numbering reached so far
        tt = ts[1].to if isinstance(ts[1].to, T) else prog.typ(ts[1].to)
        op, tp = fld(prog, tt, 'pos')
        perm = perm_of(s)
        base = eng.fix_off(s, eng._resolve(s, a[1]))
        for k in range(1, 6):
            v = bv(eng.read(s, Ptr(base.obj, e_add(base.off, k * prog.sizeof(tt) + op)), tp), 32)
            eng.oblige(s, P + 'arguments are placed under the places converted so far', v == perm[k], eng.where(s))
        s.ghost['calls'] = s.ghost.get('calls', ()) + (a[0],)
        return [(s, None)]
    e.contracts.update(prop_dont_gloss=prop_dont_gloss, prop_conversion=prop_conversion, assign_terms_to_places=terms)
    def loops(f, pc):
        body = f.loop_body(pc)
        txt = str([f.ins[b] for b in body])
        lcp = [p for p in f.params if p and p.endswith('::lc')]
        if f.name != fn or not any("'%s'" % p in txt for p in f.params if p):
            return None
        def inv(eng, s, entry):
            g = G(s, 'g')
            return [('within the chain', z3.And(g >= -1, g < z3.SignExt(32, n)))]
        def cands(eng, s, entry):
            g = G(s, 'g')
            out = agree(eng, prog, s)
            fids = {fr[0] for fr in s.frames}
            for key, v in list(s.env.items()):
                if key[0] in fids and isinstance(key[1], str) and key[1] in prog.sym and not isinstance(v, (Ptr, tuple)) and v is not None:
                    t = prog.typ(prog.sym[key[1]]['type'])
                    if t.k == 'int' and t.w == 32:
                        x = bv(v, 32)
                        for d in (0, 1):
                            z = z3.simplify(z3.Extract(31, 0, g + d))
                            out.append(('%s==g+%d' % (key[1], d), x == z, (key, z)))
                        out.append(('%s==n-1-g' % key[1], x == n - 1 - z3.Extract(31, 0, g)))
            return out
        def on_head(eng, h, entry):
            inst(h, G(h, 'g'))
            h.ghost['calls'] = ()
        def step(eng, b, head, entry):
            g = G(head, 'g')
            ty, c = inst(b, g)
            p0 = perm_of(head)
            p1 = swap(p0, c)
            set_perm(b, {k: z3.If(ty == en['LC_SE'], p1[k], p0[k]) for k in p0})
            setG(b, 'g', z3.simplify(g - 1))
            calls = b.ghost.get('calls', ())
            eng.oblige(b, P + 'the chain is taken from the innermost conversion outwards, one at a time', z3.And(g >= 0, ty != en['LC_TAG']), 'chain loop')
            if fn == 'assign_places':
                eng.oblige(b, P + 'linked arguments are placed where they stand in the chain', (ty == en['LC_LINKS']) == (len(calls) == 1), 'chain loop')
                if calls:
                    eng.oblige(b, P + 'the arguments linked there are placed', z3.And(len(calls) == 1, peq(calls[0], field(b, g, o_l, t_l))), 'chain loop')
        return LoopSpec(inv, cands, on_head, None, step, P + fn + ' chain')
    e.loop_for = loops
    e.verbose = '-v' in sys.argv
    if fn == 'assign_conversion':
        args = [Ptr(LC, 0), Ptr(NODE, 0)]
    else:
        pre, post, tt = (e.new_obj(st, x, 400) for x in ('pre', 'post', 'tag'))
        args = [Ptr(pre, 0), Ptr(post, 0), Ptr(LC, 0), Ptr(tt, 0)]
    res = e.run_function(st, fn, args)
    for s, r in res:
        w = fn + ' exit'
        if isinstance(r, tuple):
            e.oblige(s, P + 'never ends the program', False, w)
            continue
        g = G(s, 'g')
        perm = perm_of(s)
        ty = bv(field(s, g, o_t, t_t), 32)
        if fn == 'assign_conversion':
            e.oblige(s, P + 'every conversion of the chain is applied', z3.Or(g == -1, ty == en['LC_TAG']), w)
            x = s.ghost.get('ext')
            e.oblige(s, P + 'the word is glossed for the place that became the first', x is not None and bv(e.read(s, Ptr(x, 0), I32), 32) == perm[1], w)
        else:
            e.oblige(s, P + 'every conversion of the chain is applied', g == -1, w)
            calls = s.ghost.get('calls', ())
            e.oblige(s, P + 'the arguments before and after the predicate are placed last', z3.And(len(calls) == 2, *[peq(x, Ptr(y, 0)) for x, y in zip(calls, (pre, post))]), w)
    e.oblige(State(), 'vacuity: %s can return' % fn, len(res) > 0, fn)
    e.inlined.add(fn)
    return [e]

def e_add(o, k):
    return o + k if isinstance(o, int) else z3.simplify(bv(o, 64) + k)

def struct_of_param(prog, fn, i):
    p = prog.funcs[fn].params[i]
    t = prog.typ(prog.sym[p]['type'])
    return t.to if isinstance(t.to, T) else prog.typ(t.to)

_c = {}
def consts(names, src):
    """values of constants that a source file defines"""
    import tempfile
    k = (tuple(names), src)
    if k not in _c:
        d = tree.src()
        c = tempfile.mktemp('.c', 'consts', tree.scratch())
        # the values as the compiler sees them: array lengths of global objects
        with open(c, 'w') as f:
            f.write('#include "%s"\n' % src + ''.join('char const_%s[1+(%s)];\n' % (n, n) for n in names))
        tree.sh(['gcc', '-w', '-fno-common', '-c'] + tree.CFLAGS + ['-I', d, c, '-o', c + '.o'])
        o = tree.sh(['nm', '-S', c + '.o']).decode()
        _c[k] = {}
        for l in o.split('\n'):
            a = l.split()
            if len(a) == 4 and a[3].startswith('const_'):
                _c[k][a[3][6:]] = int(a[1], 16) - 1
    return _c[k]

# ------------------------------------------------------------------ conversion.c
def climb(prog):
    """compute_tu2_conv: climbing from a unit to the end of the construction it stands in"""
    e = Engine(prog)
    st = State()
    TN = struct(prog, 'treenode')
    o_p, t_p = fld(prog, TN, 'parent')
    o_t, t_t = path(prog, TN, 'data', 'nonterm', 'type')
    o_sel, t_sel = path(prog, TN, 'data', 'cmavo', 'selmao')
    up = ['TANRU_UNIT_2', 'NAHE_TU2', 'TANRU_UNIT_1', 'TANRU_UNIT', 'SELBRI_6', 'SELBRI_5', 'SELBRI_3', 'KE_SELBRI_3', 'KE_SELBRI3_TU2']
    en = consts(up + ['SE_TU2', 'JAI_TU2', 'JAI_TAG_TU2', 'SELBRI_4', 'SELBRI_2', 'SE'], 'conversion.c')
    A, N = z3.Function('ancestor', z3.IntSort(), z3.IntSort()), z3.Int('unit')
    K = z3.Function('conversion word of', z3.IntSort(), z3.IntSort())
    PL = z3.Function('place of', z3.IntSort(), z3.BitVecSort(32))
    NODE, H = z3.Int('apply_to'), z3.Int('depth')
    PAR, TY = e.heap_arr(st, ('po', o_p)), e.heap_arr(st, (32, o_t))
    SEL = e.heap_arr(st, (32, o_sel))
    st.assume(z3.And(N != 0, NODE != 0, A(0) == N, H >= 0))
    def ty(k):
        return z3.Select(TY, A(k))
    def closes(k):
        return z3.Or(ty(k) == en['SELBRI_2'], z3.And(ty(k) == en['SELBRI_4'], ty(k + 1) == en['SELBRI_3'], ty(k + 2) == en['SELBRI_3']))
    def inst(s, k):
        """the grammar above a unit: only these constructions, ending at H"""
        s.assume(z3.Implies(z3.And(0 <= k, k <= H), z3.And(A(k) != 0, z3.Select(PAR, A(k)) == A(k + 1), A(k + 1) != 0, z3.Select(PAR, A(k + 1)) == A(k + 2), A(k + 2) != 0,
                 z3.Or(*[ty(k) == v for n_, v in en.items() if n_ != 'SE']), closes(k) == (k == H),
                 z3.Implies(ty(k) == en['SE_TU2'], z3.And(K(A(k)) != 0, z3.Select(SEL, K(A(k))) == en['SE'], PL(K(A(k))) >= 2, PL(K(A(k))) <= 5)))))
    set_perm(st, {k: B32(k) for k in range(1, 6)})
    setG(st, 'k', z3.IntVal(0))
    present = z3.Bool('already determined')
    def prop_conversion(eng, s, a, ts):
        eng.oblige(s, P + 'the conversion is stored on the word itself', peq(a[0], Ptr(NODE, 0)), eng.where(s))
        c = a[1] if isinstance(a[1], int) else None
        if c == 0:
            s2 = s.fork()
            s.assume(present); s2.assume(z3.Not(present))
            return [(s, Ptr(eng.new_obj(s, 'old annotation', 64, True), 0)), (s2, Ptr(0, 0))]
        o = eng.new_obj(s, 'annotation', 64)
        s.ghost['ext'] = o
        return [(s, Ptr(o, 0))]
    def child_ref(eng, s, a, ts):
        eng.oblige(s, P + 'the conversion word is the first child', a[1] == 0 if isinstance(a[1], int) else bv(a[1], 32) == 0, eng.where(s))
        return [(s, a[0])]
    def strip(eng, s, a, ts):
        return [(s, Ptr(K(oi(a[0].obj)), 0))]
    def place(eng, s, a, ts):
        return [(s, PL(oi(a[0].obj)))]
    e.contracts.update(prop_conversion=prop_conversion, prop_dont_gloss=lambda eng, s, a, ts: [(s, fresh_ptr('dg'))], child_ref=child_ref, strip_attitudinal=strip, lookup_converted_place=place)
    def loops(f, pc):
        if f.name != 'compute_tu2_conv':
            return None
        txt = str([f.ins[b] for b in f.loop_body(pc)])
        if 'parent' not in txt:
            return None
        def inv(eng, s, entry):
            k = G(s, 'k')
            return [('within the construction', z3.And(k >= 0, k <= H))]
        def cands(eng, s, entry):
            out = agree(eng, prog, s)
            fids = {fr[0] for fr in s.frames}
            for key, v in list(s.env.items()):
                if key[0] in fids and isinstance(key[1], str) and isinstance(v, Ptr):
                    out.append(('%s is the ancestor reached' % key[1], oi(v.obj) == A(G(s, 'k'))))
            return out
        def on_head(eng, h, entry):
            inst(h, G(h, 'k'))
        def step(eng, b, head, entry):
            k = G(head, 'k')
            p0 = perm_of(head)
            p1 = swap(p0, PL(K(A(k))))
            jai = z3.Or(ty(k) == en['JAI_TU2'], ty(k) == en['JAI_TAG_TU2'])
            np = {j: z3.If(ty(k) == en['SE_TU2'], p1[j], p0[j]) for j in p0}
            np[1] = z3.If(jai, B32(0), np[1])
            set_perm(b, np)
            setG(b, 'k', z3.simplify(k + 1))
            inst(b, z3.simplify(k + 1))
        return LoopSpec(inv, cands, on_head, None, step, P + 'climb')
    e.loop_for = loops
    inst(st, z3.IntVal(0))
    e.verbose = '-v' in sys.argv
    res = e.run_function(st, 'compute_tu2_conv', [Ptr(N, 0), Ptr(NODE, 0)])
    for s, r in res:
        w = 'compute_tu2_conv exit'
        if isinstance(r, tuple):
            e.oblige(s, P + 'never ends the program', False, w)
            continue
        x = s.ghost.get('ext')
        if x is None:
            e.oblige(s, P + 'a conversion determined before is kept, and only then', present, w)
        else:
            e.oblige(s, P + 'the unit is glossed for the place that became the first', z3.And(z3.Not(present), bv(e.read(s, Ptr(x, 0), I32), 32) == perm_of(s)[1]), w)
            e.oblige(s, P + 'all conversions up to the end of the construction are applied', G(s, 'k') == H, w)
    e.oblige(State(), 'vacuity: compute_tu2_conv can return', len(res) > 1, 'compute_tu2_conv')
    e.inlined.add('compute_tu2_conv')
    return [e]

def bai(prog):
    """conv_tag_se_bai on a converted and an unconverted modal"""
    es = []
    TN = struct(prog, 'treenode')
    o_ty, t_ty = fld(prog, TN, 'type')
    o_t, t_t = path(prog, TN, 'data', 'nonterm', 'type')
    o_ch, t_ch = path(prog, TN, 'data', 'nonterm', 'children')
    o_sel, t_sel = path(prog, TN, 'data', 'cmavo', 'selmao')
    en = consts(['SE_BAI', 'BAI1', 'N_NONTERM', 'SE'], 'conversion.c')
    for kind in ('SE_BAI', 'BAI1'):
        e = Engine(prog)
        st = State()
        X, C0, C1, S = z3.Ints('node child0 child1 se')
        PL = z3.BitVec('place', 32)
        st.assume(z3.And(X != 0, C0 != 0, C1 != 0, S != 0, PL >= 2, PL <= 5, z3.Distinct(X, C0, C1)))
        e.write(st, Ptr(X, o_ty), t_ty, en['N_NONTERM'])
        e.write(st, Ptr(X, o_t), t_t, en[kind])
        ct = t_ch.to if isinstance(t_ch.to, T) else prog.typ(t_ch.to)
        arr = z3.Int('children')
        if t_ch.k == 'ptr':
            st.assume(arr != 0)
            e.write(st, Ptr(X, o_ch), t_ch, Ptr(arr, 0))
            base = (arr, 0)
        else:
            base = (X, o_ch)
        e.write(st, Ptr(base[0], base[1]), ct, Ptr(C0, 0))
        e.write(st, Ptr(base[0], base[1] + 8), ct, Ptr(C1, 0))
        e.write(st, Ptr(S, o_sel), t_sel, en['SE'])
        def bc(eng, s, a, ts, kind=kind, C0=C0, C1=C1):
            eng.oblige(s, P + 'the modal itself is marked', z3.And(peq(a[0], Ptr(C1 if kind == 'SE_BAI' else C0, 0)), bv(a[1], 32) != 0), eng.where(s))
            o = eng.new_obj(s, 'annotation', 64)
            s.ghost['ext'] = o
            return [(s, Ptr(o, 0))]
        def strip(eng, s, a, ts, S=S, C0=C0):
            eng.oblige(s, P + 'the conversion word is the first child', peq(a[0], Ptr(C0, 0)), eng.where(s))
            return [(s, Ptr(S, 0))]
        def place(eng, s, a, ts, S=S, PL=PL):
            eng.oblige(s, P + 'the place is that of the conversion word', peq(a[0], Ptr(S, 0)), eng.where(s))
            return [(s, PL)]
        e.contracts.update(prop_bai_conversion=bc, prop_dont_gloss=lambda eng, s, a, ts: [(s, fresh_ptr('dg'))], strip_attitudinal=strip, lookup_converted_place=place)
        def child_ref(eng, s, a, ts, C0=C0, C1=C1):
            return [(s, Ptr(C0 if a[1] == 0 else C1, 0))]
        e.contracts['child_ref'] = child_ref
        res = e.run_function(st, 'conv_tag_se_bai', [Ptr(X, 0)])
        for s, r in res:
            x = s.ghost.get('ext')
            e.oblige(s, P + 'the modal is marked with the place of its conversion', not isinstance(r, tuple) and x is not None and bv(e.read(s, Ptr(x, 0), I32), 32) == (PL if kind == 'SE_BAI' else 1), 'conv_tag_se_bai exit')
        e.oblige(State(), 'vacuity: conv_tag_se_bai returns', len(res) > 0, 'conv_tag_se_bai')
        e.inlined.add('conv_tag_se_bai')
        es.append(e)
    return es

def append(prog):
    """lc_append_se / lc_append_links / lc_copy / lc_init: the chain is extended at its end, the rest kept"""
    es = []
    L = struct_of_param(prog, 'assign_conversion', 0)
    o_n, t_n = fld(prog, L, 'n')
    o_e, t_e = fld(prog, L, 'e')
    E = t_e.to if isinstance(t_e.to, T) else prog.typ(t_e.to)
    ese = prog.sizeof(E)
    cap = prog.sizeof(t_e) // ese
    o_t, t_t = fld(prog, E, 'type')
    o_c, t_c = path(prog, E, 'data', 'se', 'conv')
    en = consts(['LC_SE'], 'terms.c')
    e = Engine(prog)
    st = State()
    LC = e.new_obj(st, 'chain', prog.sizeof(L))
    n, i = z3.BitVec('n', 32), z3.BitVec('i', 64)
    conv = z3.BitVec('conv', 32)
    st.assume(z3.And(n >= 0, n < cap))
    e.write(st, Ptr(LC, o_n), t_n, n)
    def rd(s, ix, o, t):
        return bv(quiet(e, lambda: e.read(s, Ptr(LC, o_e + ix * ese + o), t)), 32)
    t0, c0 = rd(st, i, o_t, t_t), rd(st, i, o_c, t_c)
    SN = z3.Int('senode')
    res = e.run_function(st, 'lc_append_se', [Ptr(LC, 0), conv, Ptr(SN, 0)])
    for s, r in res:
        w = 'lc_append_se exit'
        n64 = z3.SignExt(32, n)
        e.oblige(s, P + 'the chain grows by one', bv(e.read(s, Ptr(LC, o_n), t_n), 32) == n + 1, w)
        e.oblige(s, P + 'the conversion is the last of the chain', z3.And(rd(s, n64, o_t, t_t) == en['LC_SE'], rd(s, n64, o_c, t_c) == conv), w)
        e.oblige(s, P + 'the rest of the chain is kept', z3.Implies(z3.And(i >= 0, i < n64), z3.And(rd(s, i, o_t, t_t) == t0, rd(s, i, o_c, t_c) == c0)), w)
    e.oblige(State(), 'vacuity: lc_append_se returns', len(res) > 0, 'lc_append_se')
    e.inlined.add('lc_append_se')
    return [e]

def prove(c):
    pc, pt = load()
    words = words_of_table(pt)
    consts(['LC_LINKS', 'LC_SE', 'LC_JAI', 'LC_TAG'], 'terms.c')
    SE = consts(['SE'], 'terms.c')['SE']
    jobs = {'lookup_converted_place': lambda: exchange(pc, 'lookup_converted_place', words, SE), 'recover_se_conv': lambda: exchange(pt, 'recover_se_conv', words, SE),
            'assign_conversion': lambda: chain(pt, 'assign_conversion'), 'assign_places': lambda: chain(pt, 'assign_places'),
            'compute_tu2_conv': lambda: climb(pc), 'conv_tag_se_bai': lambda: bai(pc), 'lc_append_se': lambda: append(pt)}
    def one(k):
        es = jobs[k]()
        return dict(obls=[(o.name, o.where, o.status, o.backend, o.ms, o.detail) for e in es for o in e.obls], inl=sorted(set().union(*[e.inlined for e in es])))
    for r in par.pmap(one, list(jobs), 8, 600):
        if 'error' in r:
            c.undecided(str(r['label']), r['error'] + r.get('trace', ''))
        else:
            c.obligations(r['obls'])
            c.functions.update(r['inl'])
            c.functions.add(r['label'])
    c.lemma(P + 'the words se, te, ve, xe are in the table', 4, [w for w in PLACE if w not in words.values()])
    c.assumptions += ['chains of at most 20 conversions and linked argument groups (the program\'s own limit: it stops with a failed assertion beyond it)',
                      'parse trees have the shape the grammar gives them: above a unit only the constructions listed in checks/conv.py up to the end of the predicate, se-constructions have a word of selma\'o SE as first child',
                      'annotations are stored and found by node (P17); the place labels are printed from the numbers computed here (searched, not proved)',
                      'jai in place assignment is outside this property (assign_places is proved for chains of se/te/ve/xe and linked arguments)']

if __name__ == '__main__':
    from checks import common
    c = common.Check('P15')
    prove(c)
    c.finish()
