"""P17: annotation lists (properties.c) and the memory wrappers (memory.c)."""
import os, random, sys, z3
from engine.gotovc import *
from engine import tree, par
from checks import common
from checks.scan import B64
from checks.cmavo import fld
P = 'annotations: '
M = 'memory: '

def load():
    tree.make('nonterm.h')
    return Program(tree.goto(['properties.c'], 'props')), Program(tree.goto(['memory.c'], 'mem'))

def getters(prog):
    """the annotation functions: prop_*(TreeNode *, int)"""
    return sorted(n for n in prog.funcs if n.startswith('prop_') and len(prog.funcs[n].params) == 2)

def struct(prog, tag):
    for k, v in prog.sym.items():
        if k == 'tag-' + tag:
            return prog.typ(v['type'])

def getter(prog, name, known):
    """known: 'present' (an annotation of this type is in the list), 'absent'; returns (engine, ghost type constant used)"""
    e = Engine(prog)
    st = State()
    TN, EX = struct(prog, 'treenode'), struct(prog, 'extension')
    o_ext = fld(prog, TN, 'ext')[0]
    o_next, o_type, o_data = (fld(prog, EX, x)[0] for x in ('next', 'type', 'data'))
    size_data = prog.sizeof(fld(prog, EX, 'data')[1])
    X, n, kap = z3.Int('node'), z3.Int('len'), z3.Int('kappa')
    N = z3.Function('element', z3.IntSort(), z3.IntSort())
    OLD = z3.Function('allocated before', z3.IntSort(), z3.BoolSort())
    WANT = z3.BitVec('type.of.this.annotation', 32)
    NXT, TYP, EXT = e.heap_arr(st, ('po', o_next)), e.heap_arr(st, (32, o_type)), e.heap_arr(st, ('po', o_ext))
    pre = {k: e.heap_arr(st, k) for k in [('po', o_next), (32, o_type), ('po', o_ext)]}
    def inst(s, k):
        """the list of X: element(0..len), next links, end; the first annotation of the wanted type is number kappa"""
        s.assume(z3.Implies(z3.And(0 <= k, k < n), z3.And(N(k) != 0, N(k) != X, OLD(N(k)), z3.Select(pre[('po', o_next)], N(k)) == N(k + 1))))
        s.assume(z3.Implies(k == n, N(k) == 0))
        s.assume(z3.Implies(z3.And(0 <= k, k < n, k < kap), z3.Select(pre[(32, o_type)], N(k)) != WANT))
    st.assume(z3.And(X != 0, OLD(X), z3.Not(OLD(0)), n >= 0, z3.Select(pre[('po', o_ext)], X) == N(0)))
    if known == 'present':
        st.assume(z3.And(0 <= kap, kap < n, z3.Select(pre[(32, o_type)], N(kap)) == WANT))
    else:
        st.assume(kap == n)
    inst(st, z3.IntVal(0)); inst(st, kap); inst(st, n)
    e.pre = pre
    new = []
    def malloc(eng, s, a, ts):
        f = z3.Int(fresh_name('new'))
        s.assume(z3.And(f != 0, z3.Not(OLD(f))))
        for g in new:
            s.assume(f != g)
        s.ghost['new'] = s.ghost.get('new', ()) + ((f, a[0]),)
        return [(s, Ptr(f, 0))]
    e.contracts['Malloc'] = malloc
    def loops(f, pc):
        def inv(eng, s, entry):
            if s is entry:
                setG(s, 'k', z3.IntVal(0))
            k = G(s, 'k')
            return [('position in the list', z3.And(0 <= k, k <= n))]
        def cands(eng, s, entry):
            k = G(s, 'k')
            out = [('not past the annotation', k <= kap), ('at most one past', k <= kap + 1)]
            fids = {fr[0] for fr in s.frames}
            for key, v in list(s.env.items()):
                if key[0] in fids and isinstance(key[1], str) and isinstance(v, Ptr):
                    for d in (0, 1, -1):
                        out.append(('%s is element k%+d' % (key[1], d), oi(v.obj) == N(k + d)))
                    out.append(('%s null or element' % key[1], z3.Or(oi(v.obj) == 0, oi(v.obj) == N(kap))))
                elif key[0] in fids and isinstance(key[1], str) and isinstance(v, (bool,)) is False and not isinstance(v, (Ptr, tuple)) and v is not None and key[1] != '#ret':
                    t = prog.typ(prog.sym[key[1]]['type']) if key[1] in prog.sym else None
                    if t is not None and t.k == 'int' and t.w == 32:
                        out += [('%s==0' % key[1], bv(v, 32) == 0), ('%s!=0' % key[1], bv(v, 32) != 0)]
            return out
        def on_head(eng, h, entry):
            k = G(h, 'k')
            for d in (-1, 0, 1):
                inst(h, k + d)
        def step(eng, b, head, entry):
            setG(b, 'k', z3.simplify(G(head, 'k') + 1))
        def on_back(eng, b, head, entry):
            eng.oblige(b, P + 'the search goes on along the list (it ends)', G(b, 'k') <= n, 'list loop')
        return LoopSpec(inv, cands, on_head, on_back, step, P + 'list search')
    e.loop_for = lambda f, pc: loops(f, pc)
    setG(st, 'k', z3.IntVal(0))
    e.verbose = '-v' in sys.argv
    create = z3.BitVec('create', 32)
    # the type constant: the ghost WANT is defined as the one the function looks for
    e.want = WANT
    return e, st, X, N, n, kap, create, (o_ext, o_next, o_type, o_data), OLD, inst, size_data

def prove_getter(prog, name, type_const):
    """contract of one annotation function; type_const: the type this annotation is stored under"""
    out = []
    for known in ('present', 'absent'):
        e, st, X, N, n, kap, create, (o_ext, o_next, o_type, o_data), OLD, inst, size_data = getter(prog, name, known)
        st.assume(e.want == type_const)
        pre = e.pre
        rt = None
        for x in prog.funcs[name].ins:
            if x['instructionId'] == 'SET_RETURN_VALUE':
                rt = e.etype(x['code']['sub'][0])
        member = prog.sizeof(rt.to if isinstance(rt.to, T) else prog.typ(rt.to))
        res = e.run_function(st, name, [Ptr(X, 0), create])
        for s, r in res:
            w = name + ' exit'
            if isinstance(r, tuple):
                e.oblige(s, P + 'fetching an annotation never ends the program', False, w)
                continue
            new = s.ghost.get('new', ())
            Q = z3.Int('any.object')
            s.assume(OLD(Q))
            post = {k: s.heap.get(k, v) for k, v in pre.items()}
            for k, v in s.heap.items():
                if k not in pre:
                    post[k] = v
            # frame: nothing that existed before changes, except the list head of the node when an annotation is added
            added = len(new) > 0
            for k, v in post.items():
                a = pre[k] if k in pre else e.heap_arr(State(), k)
                c = z3.Select(v, Q) == z3.Select(a, Q)
                if added and k == ('po', o_ext):
                    c = z3.Implies(Q != X, c)
                e.oblige(s, P + 'other annotations and nodes keep their values', c, w)
            if known == 'present':
                e.oblige(s, P + 'the annotation stored before is found', peq(r, Ptr(N(kap), o_data)), w)
                e.oblige(s, P + 'nothing is added where an annotation exists', not added, w)
            else:
                if not added:
                    e.oblige(s, P + 'an annotation is made when asked for', create == 0, w)
                    e.oblige(s, P + 'absence is reported', peq(r, Ptr(0, 0)), w)
                else:
                    f, size = new[0]
                    e.oblige(s, P + 'asking does not store', create != 0, w)
                    e.oblige(s, P + 'one annotation is added', len(new) == 1, w)
                    e.oblige(s, P + 'the annotation has room for its values', z3.And(z3.UGE(bv(size, 64), o_data + member), z3.UGE(bv(size, 64), o_data + 0)), w)
                    e.oblige(s, P + 'the new annotation is handed out', peq(r, Ptr(f, o_data)), w)
                    e.oblige(s, P + 'it carries its type', z3.Select(s.heap[(32, o_type)], f) == type_const, w)
                    # the list afterwards: the new element followed by all the old ones
                    h = z3.Select(s.heap[('po', o_ext)], X)
                    e.oblige(s, P + 'the list is the new annotation and all old ones', z3.And(h == f, z3.Select(s.heap[('po', o_next)], f) == N(0)), w)
        e.oblige(State(), 'vacuity: %s can return (%s)' % (name, known), len(res) > 0, name)
        out.append(e)
    return out

def type_used(prog, name):
    """the type a getter searches for: decided by running it on an empty list with create"""
    e, st, X, N, n, kap, create, offs, OLD, inst, sd = getter(prog, name, 'absent')
    st.assume(z3.And(n == 0, create == 1))
    e.recording = False
    vals = set()
    e.loop_for = None
    e.obls = []
    for s, r in e.run_function(st, name, [Ptr(X, 0), 1]):
        for f, size in s.ghost.get('new', ()):
            a = z3.simplify(z3.Select(s.heap[(32, offs[2])], f))
            if not z3.is_bv_value(a):
                sol = z3.Solver(); sol.add(*[zb(x) for x in s.pc])
                if sol.check() != z3.sat: continue
                a = sol.model().eval(a, model_completion=True)
            vals.add(a.as_long())
    return vals

# ------------------------------------------------------------------ memory.c
def allocator(prog):
    e = Engine(prog)
    obls = []
    U64 = T('int', 64, False)
    def globals_of(s):
        g = [k for k in prog.sym if k.startswith('bytes_in_use') or k.startswith('max_bytes_in_use')]
        return g
    def gr(s, sym):
        return bv(e.read(s, Ptr(e.global_obj(s, sym), 0), U64), 64)
    def start(fn):
        st = State()
        use, mx = z3.BitVec('use', 64), z3.BitVec('max', 64)
        for sym, v in (('bytes_in_use', use), ('max_bytes_in_use', mx)):
            e.write(st, Ptr(e.global_obj(st, sym), 0), U64, v)
        st.assume(z3.And(z3.ULE(use, mx), z3.ULT(mx, 1 << 62)))
        return st, use, mx
    live = {}
    def malloc(eng, s, a, ts):
        o = eng.new_obj(s, 'heap', bv(a[0], 64))
        s.ghost['blocks'] = s.ghost.get('blocks', ()) + ((o, bv(a[0], 64)),)
        return [(s, Ptr(o, 0))]
    def base(eng, s, p, what):
        p = eng.fix_off(s, eng._resolve(s, p))
        eng.oblige(s, M + what + ' gets the start of a block of its own', isinstance(p.obj, int) and p.obj == s.ghost.get('block') and isinstance(p.off, int) and p.off == 0, eng.where(s))
    def realloc(eng, s, a, ts):
        base(eng, s, a[0], 'realloc')
        s.ghost['gone'] = s.ghost['block']
        return malloc(eng, s, a[1:], ts[1:])
    def free(eng, s, a, ts):
        base(eng, s, a[0], 'free')
        s.ghost['gone'] = s.ghost['block']
        return [(s, None)]
    e.contracts.update(malloc=malloc, realloc=realloc, free=free)
    n = z3.BitVec('n', 64)
    def handed(st, hdr):
        """a block that Malloc or Realloc handed out for m bytes: header and room as proved below"""
        m = z3.BitVec('m', 64)
        st.assume(z3.And(z3.ULT(m, 1 << 62), z3.ULE(m, z3.BitVec('use', 64))))
        o = e.new_obj(st, 'block', m + hdr)
        e.write(st, Ptr(o, 0), U64, m)
        st.ghost['block'] = o
        return o, m
    def post(s, r, use, mx, nuse, w, size):
        if isinstance(r, tuple):
            e.oblige(s, M + 'never ends the program', False, w)
            return None
        e.oblige(s, M + 'bytes in use are those handed out', gr(s, 'bytes_in_use') == nuse, w)
        e.oblige(s, M + 'the maximum is the largest use so far', gr(s, 'max_bytes_in_use') == z3.If(z3.UGT(nuse, mx), nuse, mx), w)
        if size is None:
            return None
        r = e.fix_off(s, e._resolve(s, r))
        bl = s.ghost.get('blocks', ())
        ok = len(bl) == 1 and isinstance(r.obj, int) and r.obj == bl[0][0] and isinstance(r.off, int)
        e.oblige(s, M + 'a block of its own is handed out', ok, w)
        if ok:
            e.oblige(s, M + 'the block has room for all bytes asked for', z3.And(z3.ULE(B64(r.off), bl[0][1]), z3.UGE(bl[0][1] - r.off, n)), w)
            e.oblige(s, M + 'the block remembers its size', z3.And(r.off == 8, bv(e.read(s, Ptr(r.obj, 0), U64), 64) == n), w)
            return r.off
        return None
    st, use, mx = start('Malloc')
    st.assume(z3.ULT(n, 1 << 61))
    res = e.run_function(st, 'Malloc', [n])
    for s, r in res:
        post(s, r, use, mx, use + n, 'Malloc exit', n)
    e.oblige(State(), 'vacuity: Malloc returns', len(res) > 0, 'Malloc')
    st, use, mx = start('Realloc')
    st.assume(z3.ULT(n, 1 << 61))
    o, m = handed(st, 8)
    res = e.run_function(st, 'Realloc', [Ptr(o, 8), n])
    for s, r in res:
        post(s, r, use, mx, use - m + n, 'Realloc exit', n)
        e.oblige(s, M + 'the old block is given up', s.ghost.get('gone') == o, 'Realloc exit')
    e.oblige(State(), 'vacuity: Realloc returns', len(res) > 0, 'Realloc')
    st, use, mx = start('Free')
    o, m = handed(st, 8)
    res = e.run_function(st, 'Free', [Ptr(o, 8)])
    for s, r in res:
        post(s, r, use, mx, use - m, 'Free exit', None)
        e.oblige(s, M + 'the block is given back', s.ghost.get('gone') == o, 'Free exit')
    e.oblige(State(), 'vacuity: Free returns', len(res) > 0, 'Free')
    # what is reported
    st, use, mx = start('print')
    def fprintf(eng, s, a, ts):
        s.ghost['printed'] = s.ghost.get('printed', ()) + tuple(x for x in a[2:])
        return [(s, 0)]
    e.contracts['fprintf'] = fprintf
    res = e.run_function(st, 'print_memory_statistics', [])
    for s, r in res:
        p = s.ghost.get('printed', ())
        e.oblige(s, M + 'the two numbers are reported', len(p) == 2 and z3.And(bv(p[0], 64) == use, bv(p[1], 64) == mx), 'print_memory_statistics exit')
    e.inlined |= {'Malloc', 'Realloc', 'Free', 'print_memory_statistics'}
    return e

# ------------------------------------------------------------------ on the real code
def harness(names):
    d = tree.make('nonterm.h')
    g = os.path.join(tree.scratch(), 'props.inc')
    with open(g, 'w') as f:
        for n in names:
            f.write('G(%s)\n' % n)
    x = os.path.join(tree.scratch(), 'props_h')
    tree.sh(['gcc', '-w', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all'] + tree.CFLAGS + ['-I', d, '-I', tree.scratch(), os.path.join(common.VERIF, 'harness', 'props_h.c'), 'properties.c', 'memory.c', '-o', x], cwd=d)
    return x

def search(c, names):
    x = harness(names)
    rnd = random.Random(common.SEED)
    n = 60 if common.TIER == 'quick' else 1000
    bad = 0
    for i in range(n):
        seed = rnd.randrange(1 << 30)
        nodes, ops = rnd.choice([(1, 200), (3, 300), (20, 2000), (500, 5000)])
        st, o, e = common.run_io([x, str(seed), str(nodes), str(ops)], b'', 120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        if st != 0:
            bad += 1
            c.failing('annotations and blocks in a random history', 'seed %d, %d nodes, %d operations' % (seed, nodes, ops), 'every value found again', (o.decode('latin-1') + e.decode('latin-1'))[-500:], 'harness/props_h.c %d %d %d' % (seed, nodes, ops))
            if bad > 3:
                break
    c.bounded.append(dict(what='random histories of annotations and memory requests on the real code (AddressSanitizer)', cases=n, disagreements=bad, bound='up to 500 nodes, 5000 operations, %d kinds of annotation' % len(names)))

def check(c):
    names = []
    def proofs():
        pr, pm = load()
        names.extend(getters(pr))
        used = {}
        bad = []
        for nm in names:
            v = type_used(pr, nm)
            if len(v) != 1:
                c.undecided('annotation %s has one type' % nm, v)
                continue
            t = v.pop()
            if t in used.values():
                bad.append((nm, t))
            used[nm] = t
        c.lemma(P + 'every kind of annotation has a type of its own', len(used), bad)
        def one(k):
            if k == 'memory':
                es = [allocator(pm)]
            else:
                es = prove_getter(pr, k, used[k])
            return dict(obls=[(o.name, o.where, o.status, o.backend, o.ms, o.detail) for e in es for o in e.obls], inl=sorted(set().union(*[e.inlined for e in es])))
        for r in par.pmap(one, ['memory'] + sorted(used), 8, 600):
            if 'error' in r:
                c.undecided(str(r['label']), r['error'] + r.get('trace', ''))
            else:
                c.obligations(r['obls'])
                c.functions.update(r['inl'])
        c.functions.update(names)
        c.assumptions += ['malloc and realloc succeed (the wrappers do not test for exhaustion) and return memory that overlaps no live block; realloc keeps the contents',
                          'fewer than 2^62 bytes are in use', 'extension lists end (they are only built by these functions, which prepend one new element)',
                          'callers write only inside the annotation they were handed']
    c.guarded('annotations and memory', proofs)
    if not names:
        pr, pm = load()
        names = getters(pr)
    search(c, names)
