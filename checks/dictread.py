"""Contracts of the dictionary reader: dict_lookup (bisection) and read_database (pointer table over the image)."""
import sys, time, z3
from engine.gotovc import *
from engine import tree, par
from checks.scan import B32, B64, I32, peek, gread, gwrite, simp_
from checks.cmavo import e_add, fld

P = 'dictionary: '
NMAX = 1 << 29

def load():
    tree.make('nonterm.h')
    return Program(tree.goto(['dictaccs.c'], 'dict'))

def sel_index(p, arr):
    """the index term of a pointer whose offset is arr[index]"""
    o = p.off
    if z3.is_expr(o):
        o = z3.simplify(o)
        if o.decl().kind() == z3.Z3_OP_SELECT and o.arg(0).eq(arr):
            return o.arg(1)
    return None

def ints(eng, s):
    fids = {fr[0] for fr in s.frames}
    for key, v in list(s.env.items()):
        if key[0] in fids and isinstance(key[1], str) and key[1] != '#ret' and not isinstance(v, (Ptr, tuple)) and v is not None:
            t = eng.prog.typ(eng.prog.sym[key[1]]['type'])
            if t.k == 'int' and t.w in (32, 64):
                x = bv(v, t.w)
                yield key[1], (z3.SignExt(32, x) if t.w == 32 else x), key, t.w

def gptr_write(e, st, sym, v):
    e.write(st, Ptr(e.global_obj(st, sym), 0), e.prog.typ(e.prog.sym[sym]['type']), v)

def gptr_read(e, st, sym):
    sf, e.safety = e.safety, False
    try:
        return e.read(st, Ptr(e.global_obj(st, sym), 0), e.prog.typ(e.prog.sym[sym]['type']))
    finally:
        e.safety = sf

def lookup(prog, mode):
    """mode 'found'/'absent': the key is / is not in the (sorted) dictionary; 'missing': no dictionary file"""
    e = Engine(prog)
    st = State()
    n, kap = z3.BitVec('n_entries', 64), z3.BitVec('kappa', 64)
    st.assume(z3.ULT(n, NMAX))
    st.assume(z3.ULT(kap, n) if mode == 'found' else z3.ULE(kap, n))
    OFF = z3.Array('pointers', z3.BitVecSort(64), z3.BitVecSort(64))
    img = e.new_obj(st, 'image', z3.BitVec('image.size', 64), const=True)
    d = e.new_obj(st, 'table', n * 16)
    K = T('struct') if False else prog.typ(prog.sym['dict']['type']).to
    K = K if isinstance(K, T) else prog.typ(K)
    ko, vo = fld(prog, K, 'key')[0], fld(prog, K, 'val')[0]
    es = prog.sizeof(K)
    key = e.new_obj(st, 'key', z3.BitVec('key.size', 64), const=True)
    def fill(s):
        e._setcell(s, s.mem[d], 'p', Cells('p', None, {}, (z3.K(z3.BitVecSort(64), z3.IntVal(img)), OFF)))
        gwrite(e, s, 'n_entries', z3.Extract(31, 0, n))
        gptr_write(e, s, 'dict', Ptr(d, 0))
        gwrite(e, s, 'inited', 1)
    setG(st, 'lo', B64(0)); setG(st, 'hi', n)
    if mode == 'missing':
        gwrite(e, st, 'inited', 0)
        gwrite(e, st, 'n_entries', 0)
        gptr_write(e, st, 'dict', Ptr(0, 0))
        def fopen(eng, s, a, ts):
            return [(s, Ptr(0, 0))]
        e.contracts['fopen'] = fopen
        e.contracts['getenv'] = lambda eng, s, a, ts: [(s, fresh_ptr('env'))]
    else:
        fill(st)
    def strcmp(eng, s, a, ts):
        w = eng.where(s)
        sign = 1
        x, y = (eng._resolve(s, p) for p in a)
        if oi(x.obj).eq(oi(key)) is False or not peq_const(x, key):
            x, y, sign = y, x, -1
        eng.oblige(s, P + 'the key itself is compared', peq(x, Ptr(key, 0)), w)
        ix = sel_index(y, OFF)
        if ix is None:
            eng.oblige(s, P + 'it is compared with a key of the dictionary', False, w)
            return [(s, fresh_bv('cmp', 32))]
        t = z3.BitVec(fresh_name('entry'), 64)
        s.assume(t == z3.UDiv(ix, B64(es)))
        eng.oblige(s, P + 'it is compared with a key of the dictionary', z3.And(ix == t * es + ko, z3.ULT(t, n)), w)
        lo, hi = G(s, 'lo'), G(s, 'hi')
        r = fresh_bv('cmp', 32)
        c = r if sign == 1 else -r
        s.assume(r != z3.BitVecVal(1 << 31, 32))
        s.assume((c > 0) == z3.ULT(t, kap))
        s.assume((c == 0) == (z3.And(t == kap) if mode == 'found' else z3.BoolVal(False)))
        setG(s, 'lo', z3.If(c > 0, z3.If(z3.UGT(t + 1, lo), t + 1, lo), lo))
        setG(s, 'hi', z3.If(c < 0, z3.If(z3.ULT(t, hi), t, hi), hi))
        return [(s, r)]
    def peq_const(p, o):
        return isinstance(p.obj, int) and p.obj == o
    e.contracts['strcmp'] = strcmp
    def inv(eng, s, entry):
        lo, hi = G(s, 'lo'), G(s, 'hi')
        return [('the key lies in the part not yet excluded', z3.And(z3.ULE(lo, kap), (z3.ULT if mode == 'found' else z3.ULE)(kap, hi), z3.ULE(hi, n)))]
    def cands(eng, s, entry):
        lo, hi = G(s, 'lo'), G(s, 'hi')
        out = []
        for nm, x, key_, w in ints(eng, s):
            for gn, g in (('lo', lo), ('hi', hi), ('lo-1', lo - 1), ('hi-1', hi - 1), ('n', n), ('0', B64(0)), ('-1', B64(-1))):
                out += [(nm + '<=' + gn, x <= g), (nm + '>=' + gn, x >= g)]
            out.append((nm + '==hi', x == hi))
        return out
    def on_back(eng, b, head, entry):
        eng.oblige(b, P + 'every step of the search excludes a part (the search ends)', z3.ULT(G(b, 'hi') - G(b, 'lo'), G(head, 'hi') - G(head, 'lo')), 'dict_lookup loop')
    e.loop_for = lambda f, pc: LoopSpec(inv, cands, None, on_back, None, P + 'search loop') if f.name == 'dict_lookup' else None
    e.verbose = '-v' in sys.argv
    res = e.run_function(st, 'dict_lookup', [Ptr(key, 0)])
    for s, r in res:
        if isinstance(r, tuple):
            e.oblige(s, P + 'a lookup never ends the program', False, 'dict_lookup')
            continue
        r = e._resolve(s, r)
        if mode == 'found':
            e.oblige(s, P + 'the text stored with the key is returned', peq(r, Ptr(img, z3.Select(OFF, kap * es + vo))), 'dict_lookup exit')
        else:
            e.oblige(s, P + 'a key that is not there is reported as absent', peq(r, Ptr(0, 0)), 'dict_lookup exit')
    e.oblige(State(), 'vacuity: a lookup can end', len(res) > 0, 'dict_lookup')
    return e

def reader(prog):
    """read_database: the pointer table addresses exactly the keys and texts of the image"""
    e = Engine(prog)
    st = State()
    A64 = lambda nm: z3.Array(nm, z3.BitVecSort(64), z3.BitVecSort(8))
    n, kap = z3.ZeroExt(35, z3.BitVec('n', 29)), z3.ZeroExt(35, z3.BitVec('kappa', 29))
    KL, VL = A64('klen'), A64('vlen')
    POS = z3.Array('start', z3.BitVecSort(64), z3.BitVecSort(64))     # prefix sums
    size = z3.BitVec('file.size', 64)
    hdr = 4 + 2 * n
    st.assume(z3.And(z3.ULT(n, NMAX), z3.ULT(size, 1 << 62)))
    st.assume(z3.Select(POS, B64(0)) == 0)
    def inst(s, i):
        """definition of the start of entry i+1, and: the image holds all entries"""
        ln = z3.ZeroExt(56, z3.Select(KL, i)) + z3.ZeroExt(56, z3.Select(VL, i)) + 2
        s.assume(z3.Implies(z3.ULT(i, n), z3.And(z3.Select(POS, i + 1) == z3.Select(POS, i) + ln, z3.ULE(hdr + z3.Select(POS, i) + ln, size), z3.ULT(z3.Select(POS, i), size))))
    inst(st, kap)
    setG(st, 'i', B64(0))
    st.ghost.update(phase=0)
    def getc(eng, s, a, ts):
        w = eng.where(s)
        ph = s.ghost['phase']
        if ph < 4:
            s.ghost['phase'] = ph + 1
            x = z3.Extract(31, 0, n)
            return [(s, z3.ZeroExt(24, z3.Extract(31 - 8 * ph, 24 - 8 * ph, x)))]
        i = G(s, 'i')
        eng.oblige(s, P + 'no more lengths are read than the image has', z3.ULT(i, n), w)
        if ph == 4:
            s.ghost['phase'] = 5
            return [(s, z3.ZeroExt(24, z3.Select(KL, i)))]
        s.ghost['phase'] = 4
        setG(s, 'i', simp_(i + 1))
        return [(s, z3.ZeroExt(24, z3.Select(VL, i)))]
    def malloc(eng, s, a, ts):
        return [(s, Ptr(eng.new_obj(s, 'heap', bv(a[0], 64)), 0))]
    def fstat(eng, s, a, ts):
        t = ts[1].to if isinstance(ts[1].to, T) else prog.typ(ts[1].to)
        o, ft = fld(prog, t, 'st_size')
        eng.write(s, Ptr(a[1].obj, e_add(a[1].off, o)), ft, size)
        return [(s, 0)]
    def ftell(eng, s, a, ts):
        eng.oblige(s, P + 'the keys start after all lengths', z3.And(G(s, 'i') == n, s.ghost['phase'] == 4), eng.where(s))
        return [(s, hdr)]
    def mmap(eng, s, a, ts):
        eng.oblige(s, P + 'the whole file is mapped', z3.And(bv(a[1], 64) == size, bv(a[5], 64) == 0), eng.where(s))
        m = eng.new_obj(s, 'image', size, const=True)
        s.ghost['img'] = m
        return [(s, Ptr(m, 0))]
    def free(eng, s, a, ts):
        return [(s, None)]
    e.contracts.update(getc=getc, fgetc=getc, _IO_getc=getc, Malloc=malloc, fstat=fstat, ftell=ftell, mmap=mmap, Free=free,
                       fileno=lambda eng, s, a, ts: [(s, fresh_bv('fd', 32))])
    K = prog.typ(prog.sym['dict']['type']).to
    K = K if isinstance(K, T) else prog.typ(K)
    ko, kt = fld(prog, K, 'key'); vo, vt = fld(prog, K, 'val')
    es = prog.sizeof(K)
    U8 = T('int', 32, True)
    def rd(eng, s, p, t):
        sf, eng.safety = eng.safety, False
        try:
            return eng.read(s, p, t)
        finally:
            eng.safety = sf
    def loops(f, pc):
        if f.name != 'read_database':
            return None
        body = f.loop_body(pc)
        reads = any(x['instructionId'] == 'FUNCTION_CALL' and x['code']['sub'][1].get('namedSub', {}).get('identifier', {}).get('id') in ('getc', 'fgetc', '_IO_getc')
                    for x in (f.ins[b] for b in body))
        def heap_tables(s):
            fids = {fr[0] for fr in s.frames}
            for k, v in list(s.env.items()):
                if k[0] in fids and isinstance(k[1], str) and isinstance(v, Ptr) and isinstance(v.obj, int) and v.obj and v.obj in s.mem and s.mem[v.obj].name == 'heap':
                    yield k[1], v
        def lens(eng, s, at):
            out = []
            for nm, v in heap_tables(s):
                t = prog.typ(prog.sym[nm]['type']).to
                t = t if isinstance(t, T) else prog.typ(t)
                if t.k != 'struct':
                    continue
                fs = [x for x in ('klen', 'vlen') if x in [f_[0] for f_ in t.fields]]
                for x, arr in (('klen', KL), ('vlen', VL)):
                    if x in fs:
                        o, ft = fld(prog, t, x)
                        out.append(('%s.%s' % (nm, x), bv(rd(eng, s, Ptr(v.obj, at * prog.sizeof(t) + o), ft), 32) == z3.ZeroExt(24, z3.Select(arr, at))))
            return out
        lam = z3.BitVec('lambda', 64)
        g = 'i' if reads else 'k'
        def inv(eng, s, entry):
            x = G(s, g)
            c = z3.ULE(x, n)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                # arbitrary index; it is below 2^29 by this invariant
                setG(s, g, z3.ZeroExt(35, z3.BitVec(fresh_name('index'), 29)))
                c = z3.ULE(G(s, g), n)
            return [('index within the table', c)]
        def cands(eng, s, entry):
            out = []
            i = G(s, g)
            for nm, x, key, w in ints(eng, s):
                z = i if w == 64 else z3.Extract(31, 0, i)
                out.append((nm + '==i', x == (z if w == 64 else z3.SignExt(32, z)), (key, z)))
            if reads:
                # the table read so far (lambda arbitrary)
                for nm, c in lens(eng, s, lam):
                    out.append((nm + ' read', z3.Implies(z3.ULT(lam, i), c)))
            else:
                d = gptr_read(eng, s, 'dict')
                if isinstance(d.obj, int) and d.obj:
                    def entry_ok(at):
                        a, b = rd(eng, s, Ptr(d.obj, at * es + ko), kt), rd(eng, s, Ptr(d.obj, at * es + vo), vt)
                        st_ = hdr + z3.Select(POS, at)
                        im = s.ghost['img']
                        return (peq(a, Ptr(im, st_)), peq(b, Ptr(im, st_ + z3.ZeroExt(56, z3.Select(KL, at)) + 1)))
                    for j in (0, 1):
                        out.append(('entry kappa done %d' % j, z3.Implies(z3.ULT(kap, i), entry_ok(kap)[j])))
                        out.append(('last entry done %d' % j, z3.Implies(z3.ULT(B64(0), i), entry_ok(i - 1)[j])))
            return out
        def on_head(eng, h, entry):
            i = G(h, g)
            inst(h, i); inst(h, i - 1)
            if not reads:
                for nm, c in h.ghost.get('lens', ()):
                    for at in (i, i - 1):
                        h.assume(z3.Implies(z3.ULT(at, n), z3.substitute(c, (lam, at))))
        def on_back(eng, b, head, entry):
            if reads:
                eng.oblige(b, P + 'each turn reads the two lengths of one entry', z3.And(G(b, 'i') == G(head, 'i') + 1, b.ghost['phase'] == 4), 'read_database')
        def step(eng, b, head, entry):
            if not reads:
                setG(b, 'k', simp_(G(head, 'k') + 1))
        return LoopSpec(inv, cands, on_head, on_back, step, P + ('reading lengths' if reads else 'pointer table'))
    e.loop_for = loops
    e.cand_timeout = 60000
    # the facts about the lengths are universally quantified over lambda: hand them to the second loop
    ft0 = e.contracts['ftell']
    def ftell2(eng, s, a, ts):
        lam = z3.BitVec('lambda', 64)
        facts = []
        fids = {fr[0] for fr in s.frames}
        for k, v in list(s.env.items()):
            if k[0] in fids and isinstance(k[1], str) and isinstance(v, Ptr) and isinstance(v.obj, int) and v.obj and v.obj in s.mem and s.mem[v.obj].name == 'heap':
                t = prog.typ(prog.sym[k[1]]['type']).to
                t = t if isinstance(t, T) else prog.typ(t)
                if t.k != 'struct':
                    continue
                for x, arr in (('klen', KL), ('vlen', VL)):
                    if x in [f_[0] for f_ in t.fields]:
                        o, ft = fld(prog, t, x)
                        c = bv(rd(eng, s, Ptr(v.obj, lam * prog.sizeof(t) + o), ft), 32) == z3.ZeroExt(24, z3.Select(arr, lam))
                        eng.oblige(s, P + 'all lengths of the image are read (%s)' % x, z3.Implies(z3.ULT(lam, n), c), eng.where(s))
                        facts.append((x, c))
        s.ghost['lens'] = tuple(facts)
        setG(s, 'k', B64(0))
        return ft0(eng, s, a, ts)
    e.contracts['ftell'] = ftell2
    e.verbose = '-v' in sys.argv
    f = e.new_obj(st, 'FILE', 216)
    res = e.run_function(st, 'read_database', [Ptr(f, 0)])
    for s, r in res:
        if isinstance(r, tuple) and r and r[0] == 'exit':
            continue
        im = s.ghost['img']
        d = gptr_read(e, s, 'dict')
        e.oblige(s, P + 'number of entries', bv(gread(e, s, 'n_entries'), 32) == z3.Extract(31, 0, n), 'read_database exit')
        a, b = rd(e, s, Ptr(d.obj, kap * es + ko), kt), rd(e, s, Ptr(d.obj, kap * es + vo), vt)
        so = hdr + z3.Select(POS, kap)
        e.oblige(s, P + 'every key is addressed where the image has it', z3.Implies(z3.ULT(kap, n), peq(a, Ptr(im, so))), 'read_database exit')
        e.oblige(s, P + 'every text is addressed where the image has it', z3.Implies(z3.ULT(kap, n), peq(b, Ptr(im, so + z3.ZeroExt(56, z3.Select(KL, kap)) + 1))), 'read_database exit')
    e.oblige(State(), 'vacuity: the reader can finish', len(res) > 0, 'read_database')
    return e

if __name__ == '__main__':
    t = time.time()
    p = load()
    for nm, fn in (('found', lambda: lookup(p, 'found')), ('absent', lambda: lookup(p, 'absent')), ('missing', lambda: lookup(p, 'missing')), ('reader', lambda: reader(p))):
        try:
            e = fn()
        except Unsupported as ex:
            import traceback; traceback.print_exc(); continue
        print(nm, e.summary()[:2], e.inlined, e.lost, time.time() - t)
        for o in e.summary()[2][:10]:
            print(o.name, o.where, o.status, (o.detail or '')[:800])
