"""Contract of process_word (one written word becomes its tokens): foreign quotations, dispatch on the class of the word,
pieces in order with their exact text and position, recursion on the parts of a split name."""
import sys, time, z3
from engine.gotovc import *
from engine import tree, par
from checks import cmavo, morf_l1, scan
from checks.scan import B32, B64, I32, peek, gread, gwrite, char_arrays
from checks.cmavo import e_add, fld

P = 'word dispatch: '
BRIV = {'MT_GISMU': 'BVT_GISMU', 'MT_LUJVO': 'BVT_LUJVO', 'MT_FUIVLA3': 'BVT_FUIVLA3', 'MT_FUIVLA3_CVC': 'BVT_FUIVLA3',
        'MT_FUIVLA3X': 'BVT_FUIVLA3', 'MT_FUIVLA3X_CVC': 'BVT_FUIVLA3', 'MT_FUIVLA4': 'BVT_FUIVLA4'}

class Strs:
    """ghost contents of C strings; atoms ('sym', name), ('lit', bytes), ('word', from, to), ('arr', cells)"""
    def __init__(self, so, S, ln):
        self.so, self.S, self.ln, self.lens = so, S, ln, {}
    def parts(self, e, st, p):
        p = e.fix_off(st, e._resolve(st, p))
        if p.obj == self.so:
            return (('word', p.off, self.ln),)
        if isinstance(p.obj, int):
            t = st.ghost.get(('text', p.obj))
            if t is not None:
                if not (isinstance(p.off, int) and p.off == 0):
                    raise Unsupported('string inside a string')
                return t
            o = e.obj(st, p.obj)
            if o.const and isinstance(p.off, int):
                b = b''
                while True:
                    v = e.read(st, Ptr(p.obj, p.off + len(b)), T('int', 8, False))
                    v = v if isinstance(v, int) else z3.simplify(v).as_long()
                    if not v & 255:
                        break
                    b += bytes([v & 255])
                return (('lit', b),) if b else ()
            if p.obj:
                a = e._mat(o, 8, None)
                e._setcell(st, o, 8, a)
                return (('arr', p.obj, str(a.arr.hash()), p.off if isinstance(p.off, int) else str(p.off)),)
        raise Unsupported('string at an unknown address')
    def length(self, ps):
        n = B64(0)
        for a in ps:
            n = n + (B64(len(a[1])) if a[0] == 'lit' else bv(a[2], 64) - bv(a[1], 64) if a[0] == 'word' else self.lens[a[1]] if a[0] == 'sym' else self.arrlen(a))
        return z3.simplify(n)
    def arrlen(self, a):
        k = ('arr',) + a[1:]
        if k not in self.lens:
            self.lens[k] = z3.BitVec('len.arr%d' % len(self.lens), 64)
        return self.lens[k]
    def bounded(self, st, ps):
        for a in ps:
            if a[0] == 'arr':
                st.assume(z3.ULT(self.arrlen(a), 1 << 20))
    def install(self, e):
        def strlen(eng, st, a, ts):
            ps = self.parts(eng, st, a[0])
            self.bounded(st, ps)
            return [(st, self.length(ps))]
        def room(eng, st, p, n, what):
            if not isinstance(p.obj, int):
                raise Unsupported(what + ' to an unknown object')
            o = eng.obj(st, p.obj)
            if p.obj == 0 or o.const:
                eng.oblige(st, what + ': writable destination', False, eng.where(st))
                return
            eng.oblige(st, what + ': the string fits its destination', z3.And(z3.ULE(bv(p.off, 64), bv(o.size, 64)), z3.UGE(bv(o.size, 64) - bv(p.off, 64), n)), eng.where(st))
        def strcpy(eng, st, a, ts):
            d = eng.fix_off(st, eng._resolve(st, a[0]))
            ps = self.parts(eng, st, a[1])
            if isinstance(d.obj, int) and eng.obj(st, d.obj).name != 'heap':
                return scan.strcpy_model(eng, st, [d, a[1]], ts)
            room(eng, st, d, self.length(ps) + 1, 'strcpy')
            if not (isinstance(d.off, int) and d.off == 0):
                raise Unsupported('strcpy into a string')
            st.ghost[('text', d.obj)] = ps
            return [(st, a[0])]
        def strcat(eng, st, a, ts):
            d = eng.fix_off(st, eng._resolve(st, a[0]))
            x, y = self.parts(eng, st, d), self.parts(eng, st, a[1])
            room(eng, st, d, self.length(x) + self.length(y) + 1, 'strcat')
            st.ghost[('text', d.obj)] = x + y
            return [(st, a[0])]
        def malloc(eng, st, a, ts):
            return [(st, Ptr(eng.new_obj(st, 'heap', bv(a[0], 64)), 0))]
        def realloc(eng, st, a, ts):
            old = eng._resolve(st, a[0])
            n = eng.new_obj(st, 'heap', bv(a[1], 64))
            if ('text', old.obj) in st.ghost:
                st.ghost[('text', n)] = st.ghost[('text', old.obj)]
                eng.oblige(st, 'realloc: the string is kept', z3.UGE(bv(a[1], 64), self.length(st.ghost[('text', n)]) + 1), eng.where(st))
            self.freed(eng, st, old)
            return [(st, Ptr(n, 0))]
        def free(eng, st, a, ts):
            self.freed(eng, st, eng._resolve(st, a[0]))
            return [(st, None)]
        e.contracts.update(strlen=strlen, strcpy=strcpy, strcat=strcat, Malloc=malloc, Realloc=realloc, Free=free)
    def freed(self, e, st, p):
        if isinstance(p.obj, int):
            e.oblige(st, 'only live heap blocks are released', p.obj != 0 and e.obj(st, p.obj).name == 'heap' and not st.ghost.get(('freed', p.obj)), e.where(st))
            st.ghost[('freed', p.obj)] = True
            st.ghost.pop(('text', p.obj), None)
            if p.obj:
                o = e.obj(st, p.obj)
                st.mem[p.obj] = MObj(p.obj, 'freed block', 0, True)

class Word:
    def __init__(self, prog):
        self.prog = prog
        if CONST:
            self.mt, self.en = CONST
            return
        self.mt = tree.cenum('morf.h', 'MT_BOGUS MT_GISMU MT_LUJVO MT_FUIVLA3 MT_FUIVLA3_CVC MT_FUIVLA3X MT_FUIVLA3X_CVC MT_FUIVLA4 MT_CMAVOS MT_CMENE MT_BAD_UPPERCASE'.split())
        self.en = tree.cenum('nodes.h', 'N_BRIVLA N_CMENE N_ZOI BVT_GISMU BVT_LUJVO BVT_FUIVLA3 BVT_FUIVLA4'.split())

    def run(self, zoi):
        """zoi: 0 no quotation open, 1 delimiter expected, 2 inside a quotation"""
        prog = self.prog
        e = Engine(prog)
        self.e, self.zoi = e, zoi
        st = State()
        ln = z3.BitVec('len', 64)
        st.assume(z3.And(z3.ULE(ln, 65535), z3.UGE(ln, 1)))
        so = e.new_obj(st, 'buf', ln + 1, const=True)
        a = e._mat(st.mem[so], 8, None)
        e._setcell(st, st.mem[so], 8, a)
        S = a.arr
        st.assume(z3.And(z3.Select(S, ln) == 0, z3.Select(S, B64(0)) != 0))
        kap = z3.BitVec('kappa', 64)
        line, col = z3.BitVec('line', 32), z3.BitVec('col', 32)
        self.so, self.S, self.ln, self.kap, self.line, self.col = so, S, ln, kap, line, col
        sx = self.sx = Strs(so, S, ln)
        sx.install(e)
        # quotation state
        pt = prog.typ(prog.sym['zoi_data']['type'])
        self.pt = pt
        W = lambda g, v: e.write(st, Ptr(e.global_obj(st, g), 0), pt, v)
        zl, dl = z3.BitVec('quotation.len', 64), z3.BitVec('delimiter.len', 64)
        st.assume(z3.And(z3.ULT(zl, 1 << 31), z3.ULT(dl, 1 << 17)))
        sx.lens['zc'], sx.lens['D'] = zl, dl
        if zoi == 2:
            z = e.new_obj(st, 'heap', zl + 1)
            st.ghost[('text', z)] = (('sym', 'zc'),)
            c = e._mat(st.mem[z], 8, None)
            e._setcell(st, st.mem[z], 8, c)
            self.zempty = zl == 0
            st.assume((z3.Select(c.arr, B64(0)) == 0) == self.zempty)
            d = e.new_obj(st, 'heap', dl + 1)
            st.ghost[('text', d)] = (('sym', 'D'),)
            W('zoi_data', Ptr(z, 0)); W('zoi_delim', Ptr(d, 0))
            self.zobj = z
        else:
            W('zoi_data', Ptr(0, 0))
            W('zoi_delim', Ptr(0, 0))
        gwrite(e, st, 'zoi_delim_next', 1 if zoi == 1 else 0)
        hb0 = z3.BitVec('had_bad0', 32)
        gwrite(e, st, 'had_bad_tokens', hb0)
        zsl, zsc = z3.BitVec('quotation.line', 32), z3.BitVec('quotation.col', 32)
        gwrite(e, st, 'zoi_start_line', zsl); gwrite(e, st, 'zoi_start_col', zsc)
        self.form0 = sx.parts(e, st, Ptr(e.global_obj(st, 'zoi_form'), 0))
        A = z3.Array('starts', z3.BitVecSort(64), z3.BitVecSort(64))
        m = z3.BitVec('last.start', 64)
        self.A, self.m = A, m
        setG(st, 'kk', B64(0)); setG(st, 'seg', B64(0))
        st.ghost.update(kind=None, tokens=(), eq=None)
        eqd = z3.Bool('word is the delimiter')
        islit = lambda b: z3.And(*[z3.Select(S, B64(i)) == c for i, c in enumerate(b + b'\0')])

        def strcmp(eng, s, a, ts):
            x, y = (sx.parts(eng, s, q) for q in a)
            if x and x[0][0] != 'word':
                x, y = y, x
            if x != (('word', 0, ln),):
                raise Unsupported('strcmp of other strings')
            if y == (('sym', 'D'),):
                c = eqd
            elif y and y[0][0] == 'lit' and len(y) == 1:
                c = islit(y[0][1])
            else:
                raise Unsupported('strcmp with %s' % (y,))
            r = fresh_bv('strcmp', 32)
            s.assume((r == 0) == c)
            return [(s, r)]
        def morf_scan(eng, s, a, ts):
            w = eng.where(s)
            eng.oblige(s, P + 'the whole word is analysed', b_and(peq(a[0], Ptr(so, 0)), zoi == 0), w)
            be = a[1]
            p0 = eng.read(s, be, ts[1].to if isinstance(ts[1].to, T) else T('ptr', 64, to=ts[0].to))
            if not isinstance(p0.obj, int) or not isinstance(p0.off, int):
                raise Unsupported('list of word starts at an unknown place')
            po = eng.obj(s, p0.obj)
            eng.oblige(s, P + 'room for the word starts', isinstance(po.size, int) and po.size - p0.off >= 8 * 65536 and p0.off == 0, w)
            mf = lambda *n: self.mfield(ts[2], n)
            out = []
            def case(mtype, cond=True):
                s2 = s.fork()
                s2.ghost['kind'] = mtype
                out.append((s2, self.mt[mtype]))
                return s2
            def fill(s2):
                c = eng.obj(s2, p0.obj)
                eng._setcell(s2, c, 'p', Cells('p', None, {}, (z3.K(z3.BitVecSort(64), z3.IntVal(so)), A)))
                s2.ghost['list'] = p0.obj
                s2.assume(z3.And(z3.ULE(m, 65535), z3.ULT(z3.Select(A, m * 8), ln), z3.ULT(z3.Select(A, B64(0)), ln), z3.ULE(z3.Select(A, B64(0)), z3.Select(A, m * 8))))
                eng.write(s2, be, T('ptr', 64, to=ts[0].to), Ptr(p0.obj, m * 8))
            for t in self.mt:
                if t in BRIV or t == 'MT_CMAVOS':
                    fill(case(t))
                elif t != 'MT_CMENE':
                    s2 = case(t)
                    eng.write(s2, be, T('ptr', 64, to=ts[0].to), Ptr(p0.obj, fresh_bv('off', 64)))
                else:
                    for sub in ('good', 'bad', 'split'):
                        s2 = case(t)
                        s2.ghost['kind'] = 'MT_CMENE ' + sub
                        self.kinds = 1
                        i, j = z3.BitVec('marker', 64), z3.BitVec('tail', 64)
                        base = a[2]
                        def wr(n, v):
                            off, t_ = mf('u', 'cmene', n)
                            eng.write(s2, Ptr(base.obj, e_add(base.off, off)), t_, v)
                        wr('is_bad', 0 if sub == 'good' else z3.BitVec('is_bad', 32))
                        s2.assume(z3.BitVec('is_bad', 32) != 0)
                        wr('can_split', fresh_bv('can_split', 32))
                        if sub == 'bad':
                            wr('ladoi', Ptr(0, 0))
                        elif sub == 'split':
                            s2.assume(z3.And(z3.ULT(i, j), z3.ULT(j, ln)))
                            wr('ladoi', Ptr(so, i)); wr('tail', Ptr(so, j))
                            s2.ghost['segs'] = ((B64(0), i), (i, j), (j, ln))
                            s2.assume(z3.Or(i == 0, i != 0))
            return out
        def text_is(eng, s, p, a0, a1, what):
            """the C string at p is the letters a0..a1 of the word"""
            w = eng.where(s)
            n = z3.simplify(bv(a1, 64) - bv(a0, 64))
            p = eng.fix_off(s, eng._resolve(s, p))
            if p.obj == so:
                eng.oblige(s, P + what, z3.And(bv(p.off, 64) == a0, a1 == ln), w)
                return
            if ('text', p.obj) in s.ghost:
                t = s.ghost[('text', p.obj)]
                eng.oblige(s, P + what, b_and(len(t) == 1 and t[0][0] == 'word', len(t) == 1 and t[0][0] == 'word' and z3.And(bv(t[0][1], 64) == a0, bv(t[0][2], 64) == a1)), w)
                return
            q = Ptr(p.obj, e_add(p.off, kap))
            eng.oblige(s, P + what, z3.Implies(z3.ULT(kap, n), peek(eng, s, q) == z3.Select(S, a0 + kap)), w)
            eng.oblige(s, P + what + ' (end)', peek(eng, s, Ptr(p.obj, e_add(p.off, n))) == 0, w)
        def total(s):
            k = s.ghost['kind']
            return m + 1 if k == 'MT_CMAVOS' else m if k in BRIV else B64(0)
        self.total = total
        def colk(kk):
            return z3.simplify(col + z3.Extract(31, 0, self.at(kk) - z3.Select(A, B64(0))))
        self.at = lambda kk: z3.If(kk == m + 1, ln, z3.Select(A, kk * 8))
        self.colk = colk
        def process_cmavo(eng, s, a, ts):
            w = eng.where(s)
            kk = G(s, 'kk')
            self.inst(s, kk)
            eng.oblige(s, P + 'only the structure words of the word are looked up', z3.ULT(kk, total(s)), w)
            end = z3.If(kk == m, ln, z3.Select(A, (kk + 1) * 8))
            text_is(eng, s, a[0], z3.Select(A, kk * 8), z3.simplify(end), 'a structure word is looked up with exactly its letters')
            eng.oblige(s, P + 'line of a structure word', bv(a[1], 32) == line, w)
            eng.oblige(s, P + 'column of a structure word', bv(a[2], 32) == colk(kk), w)
            setG(s, 'kk', z3.simplify(kk + 1))
            hb = gread(eng, s, 'had_bad_tokens')
            h2 = fresh_bv('had_bad', 32)
            s.assume(z3.Implies(bv(hb, 32) != 0, h2 != 0))
            gwrite(eng, s, 'had_bad_tokens', h2)
            s.ghost['tokens'] = s.ghost['tokens']
            return [(s, None)]
        def process_word(eng, s, a, ts):
            w = eng.where(s)
            segs, g = s.ghost.get('segs'), s.ghost.get('segi', 0)
            if segs is None or g >= 3:
                eng.oblige(s, P + 'only the parts of a split name are analysed again', False, w)
                return [(s, fresh_bv('r', 32))]
            out = []
            # an empty text before the marker is skipped
            for skip in ((False, True) if g == 0 else (False,)):
                s2 = s.fork()
                g2 = g + 1 if skip else g
                if g == 0:
                    s2.assume((segs[0][1] == 0) == skip)
                    if not eng.feasible(s2):
                        continue
                a0, a1 = segs[g2]
                text_is(eng, s2, a[0], a0, a1, 'a part of a split name has exactly its letters')
                eng.oblige(s2, P + 'parts of a split name are not empty and shorter than the name (the recursion ends)', z3.And(z3.ULT(a0, a1), z3.ULT(a1 - a0, ln)), w)
                eng.oblige(s2, P + 'line of a part', bv(a[1], 32) == line, w)
                eng.oblige(s2, P + 'column of a part', bv(a[2], 32) == col + z3.Extract(31, 0, a0), w)
                s2.ghost['segi'] = g2 + 1
                hb = gread(eng, s2, 'had_bad_tokens')
                h2 = fresh_bv('had_bad', 32)
                s2.assume(z3.Implies(bv(hb, 32) != 0, h2 != 0))
                gwrite(eng, s2, 'had_bad_tokens', h2)
                # the nested call may use the static work areas and open a quotation
                s2.ghost['nested'] = True
                gwrite(eng, s2, 'zoi_delim_next', fresh_bv('zdn', 32))
                for gl in ('zoi_data', 'zoi_delim'):
                    eng.write(s2, Ptr(eng.global_obj(s2, gl), 0), pt, fresh_ptr(gl))
                for sym, oid in eng.gobj.items():
                    if oid in s2.mem and not s2.mem[oid].const and sym.startswith(('process_word::', 'add_preceding')):
                        o = s2.mem[oid]
                        n = MObj(o.oid, o.name, o.size, o.const)
                        s2.mem[oid] = n
                out.append((s2, fresh_bv('r', 32)))
            return out
        def add_token(eng, s, a, ts):
            s.ghost['tokens'] = s.ghost['tokens'] + (a[0],)
            w = eng.where(s)
            if s.ghost['kind'] in BRIV:
                eng.oblige(s, P + 'the root word comes after its structure words', G(s, 'kk') == m, w)
            return [(s, None)]
        e.contracts.update(strcmp=strcmp, morf_scan=morf_scan, process_cmavo=process_cmavo, add_token=add_token)
        self.nested = process_word
        def top(eng, s, a, ts):
            return process_word(eng, s, a, ts)
        e.contracts['process_word'] = top
        e.loop_for = self.loop_for
        e.verbose = '-v' in sys.argv
        c = e.contracts.pop('process_word')
        f = e.prog.funcs['process_word']
        e.contracts['process_word'] = c
        res = e.run_function(st, 'process_word', [Ptr(so, 0), line, col])
        kinds = {}
        for s, r in res:
            if isinstance(r, tuple) and r and r[0] == 'exit':
                e.oblige(s, P + 'a word never stops the program', False, 'process_word')
                continue
            self.post(e, s, kinds, eqd, hb0, zsl, zsc, islit)
        want = {0: 12 if True else 0, 1: 1, 2: 2}[zoi]
        e.oblige(State(), 'vacuity: all kinds of words occur (%s)' % sorted(kinds), len(kinds) >= want, 'process_word')
        return e

    def mfield(self, t, names):
        u = self.prog.typ(t.to) if not isinstance(t.to, T) else t.to
        off = 0
        for n in names:
            o, u = fld(self.prog, u, n)
            off += o
        return off, u

    def inst(self, s, kk):
        """instances of the word scanner's postcondition at piece kk"""
        A, m, ln = self.A, self.m, self.ln
        s.assume(z3.Implies(z3.ULE(kk, m), z3.And(z3.ULT(z3.Select(A, kk * 8), ln), z3.ULE(z3.Select(A, B64(0)), z3.Select(A, kk * 8)))))
        s.assume(z3.Implies(z3.ULT(kk, m), z3.And(z3.ULT(z3.Select(A, kk * 8), z3.Select(A, (kk + 1) * 8)), z3.ULT(z3.Select(A, (kk + 1) * 8), ln))))

    # ---- loops
    def calls(self, f, body, seen=None):
        seen = seen if seen is not None else set()
        for n in body:
            x = f.ins[n]
            if x['instructionId'] == 'FUNCTION_CALL':
                fn = x['code']['sub'][1]
                if fn['id'] == 'symbol':
                    nm = fn['namedSub']['identifier']['id']
                    if nm not in seen:
                        seen.add(nm)
                        if nm in self.prog.funcs and nm not in self.e.contracts:
                            g = self.prog.funcs[nm]
                            self.calls(g, range(len(g.ins)), seen)
        return seen

    def loop_for(self, f, pc):
        c = self.calls(f, f.loop_body(pc))
        if 'process_cmavo' in c:
            return LoopSpec(self.p_inv, self.p_cands, self.p_head, self.p_back, None, P + 'loop over structure words')
        if c & {'process_word', 'add_token', 'morf_scan'}:
            return None
        return self.copy_loop()

    def p_inv(self, eng, s, entry):
        return [('pieces so far', z3.ULE(G(s, 'kk'), self.total(s)))]

    def p_head(self, eng, h, entry):
        self.inst(h, G(h, 'kk'))

    def p_back(self, eng, b, head, entry):
        eng.oblige(b, P + 'every iteration handles one structure word (the loop ends)', G(b, 'kk') == G(head, 'kk') + 1, 'loop over structure words')

    def ints(self, eng, s):
        """(name, value, key or None) of 32/64 bit integers in the active frames"""
        fids = {fr[0] for fr in s.frames}
        for key, v in list(s.env.items()):
            if key[0] in fids and isinstance(key[1], str) and key[1] != '#ret' and not isinstance(v, (Ptr, tuple)) and v is not None:
                t = self.prog.typ(self.prog.sym[key[1]]['type'])
                if t.k == 'int' and t.w in (32, 64):
                    yield '%s@%d' % (key[1], len(s.frames)), bv(v, t.w), key, t.w
            elif key[0] == 'obj' and key[1] in fids:
                t = self.prog.typ(self.prog.sym[key[2]]['type'])
                if t.k == 'int' and t.w in (32, 64) and v in s.mem:
                    sf = eng.safety
                    eng.safety = False
                    x = eng.read(s, Ptr(v, 0), t)
                    eng.safety = sf
                    yield key[2], bv(x, t.w), None, t.w

    def ptrs(self, s):
        fids = {fr[0] for fr in s.frames}
        for key, v in list(s.env.items()):
            if key[0] in fids and isinstance(key[1], str) and key[1] != '#ret' and isinstance(v, Ptr) and isinstance(v.obj, int) and v.obj:
                yield key[1], v, key

    def p_cands(self, eng, s, entry):
        out = []
        kk = G(s, 'kk')
        ex = lambda x, w: x if w == 64 else z3.Extract(31, 0, x)
        for nm, x, key, w in self.ints(eng, s):
            ck = self.colk(kk)
            ck = ck if w == 32 else z3.SignExt(32, ck)
            out.append((nm + '==column', x == ck, (key, ck)) if key else (nm + '==column', x == ck))
            out.append((nm + '==kk', x == ex(kk, w), (key, ex(kk, w))) if key else (nm + '==kk', x == ex(kk, w)))
            d = z3.simplify(self.at(kk) - z3.Select(self.A, B64(0)))
            out.append((nm + '==offset', x == ex(d, w)))
        for nm, v, key in self.ptrs(s):
            if v.obj == s.ghost.get('list'):
                out.append((nm + '==&starts[kk]', bv(v.off, 64) == kk * 8, (key, Ptr(v.obj, kk * 8))))
            elif v.obj == self.so:
                out.append((nm + '==start of piece', bv(v.off, 64) == z3.Select(self.A, kk * 8), (key, Ptr(v.obj, z3.Select(self.A, kk * 8)))))
        hb = bv(gread(eng, s, 'had_bad_tokens'), 32)
        out.append(('errors stay', z3.Implies(z3.BitVec('had_bad0', 32) != 0, hb != 0)))
        return out

    def copy_loop(self):
        """a loop that copies bytes: every pointer advances with the number of bytes copied"""
        kap = self.kap
        base = {}
        def inv(eng, s, entry):
            if ('g', 'j') not in s.env or s is entry:
                setG(s, 'j', B64(0))
            return [('fewer bytes than the word has', z3.ULE(G(s, 'j'), self.ln))]
        def cands(eng, s, entry):
            out = []
            j = G(s, 'j')
            ex = lambda x, w: x if w == 64 else z3.Extract(31, 0, x)
            e0 = {k: (x, w) for k, x, key, w in self.ints(eng, entry)}
            p0 = {k: v for k, v, key in self.ptrs(entry)}
            for nm, x, key, w in self.ints(eng, s):
                if nm in e0:
                    z = z3.simplify(e0[nm][0] + ex(j, w))
                    out.append((nm + '==entry+j', x == z, (key, z)) if key else (nm + '==entry+j', x == z))
                    out.append((nm + '==j', x == ex(j, w)))
            src, dst = [], []
            for nm, v, key in self.ptrs(s):
                if nm in p0 and p0[nm].obj == v.obj:
                    z = z3.simplify(bv(p0[nm].off, 64) + j)
                    if v.obj == self.so:
                        src.append(bv(p0[nm].off, 64))
                        for en, end in self.ends(s):
                            out.append((nm + '<=' + en, z3.ULE(bv(v.off, 64), end)))
                    elif v.obj != s.ghost.get('list'):
                        dst.append((nm, Ptr(v.obj, p0[nm].off)))
                    out.append((nm + '==entry+j', bv(v.off, 64) == z, (key, Ptr(v.obj, z))))
            starts = {z3.simplify(x).sexpr(): x for x in src}
            starts['0'] = B64(0)
            for o in [d for d in dst] + [(nm, Ptr(oid, 0)) for nm, oid in char_arrays(eng, s) if not nm.startswith('zoi')]:
                ob = s.mem.get(o[1].obj)
                if ob is None or ob.const or (('text', o[1].obj) in s.ghost):
                    continue
                for sn, x in starts.items():
                    out.append(('%s starts with the letter at %s' % (o[0], sn), z3.Implies(z3.ULT(B64(0), j), peek(eng, s, o[1]) == z3.Select(self.S, x))))
                    out.append(('%s holds letters from %s' % (o[0], sn), z3.Implies(z3.ULT(kap, j), peek(eng, s, Ptr(o[1].obj, e_add(o[1].off, kap))) == z3.Select(self.S, x + kap))))
            return out
        def step(eng, b, head, entry):
            setG(b, 'j', z3.simplify(G(head, 'j') + 1))
        def on_head(eng, h, entry):
            self.inst(h, G(h, 'kk'))
            p0 = {k: v for k, v, key in self.ptrs(h) if v.obj == self.so}
            for v in p0.values():
                o = bv(v.off, 64)
                h.assume(z3.Implies(z3.ULT(o, self.ln), z3.Select(self.S, o) != 0))
        def on_back(eng, b, head, entry):
            pass
        return LoopSpec(inv, cands, on_head, on_back, step, P + 'copy loop')

    def ends(self, s):
        kk = G(s, 'kk')
        out = [('end of word', self.ln)]
        if s.ghost.get('kind') in BRIV or s.ghost.get('kind') == 'MT_CMAVOS':
            out.append(('next piece', z3.If(kk == self.m, self.ln, z3.Select(self.A, (kk + 1) * 8))))
        for a, b in s.ghost.get('segs', ()):
            out.append(('end of part %s' % b, b))
        return out

    # ---- postcondition
    def post(self, e, s, kinds, eqd, hb0, zsl, zsc, islit):
        prog, sx, ln, line, col = self.prog, self.sx, self.ln, self.line, self.col
        w = 'process_word exit'
        ob = lambda n, c: e.oblige(s, n, c, w)
        toks, kind = s.ghost['tokens'], s.ghost['kind']
        N = cmavo.node_type(prog)
        U = fld(prog, N, 'data')[1]
        def get(p, *names):
            t, off = N, 0
            for n in names:
                o, t = fld(prog, t, n)
                off += o
            return e.read(s, Ptr(p.obj, e_add(p.off, off)), t)
        def intf(p, *names):
            v = get(p, *names)
            return bv(v, 32) if not (z3.is_expr(v) and v.size() != 32) else v
        def gptr(g):
            return e.read(s, Ptr(e.global_obj(s, g), 0), self.pt)
        text = lambda p: sx.parts(e, s, p)
        zd = gptr('zoi_data')
        zn = bv(gread(e, s, 'zoi_delim_next'), 32)
        hb = bv(gread(e, s, 'had_bad_tokens'), 32)
        Q = 'P06 quotation: '
        if self.zoi == 2:
            ob(Q + 'quoted words are not interpreted', kind is None and G(s, 'kk').eq(B64(0)) and hb.eq(hb0))
            if toks:
                kinds['end'] = 1
                ob(Q + 'it ends only at its delimiter', eqd)
                ob(Q + 'one token', len(toks) == 1)
                p = toks[0]
                ob(Q + 'token', b_and(intf(p, 'type') == self.en['N_ZOI'], intf(p, 'start_line') == zsl, intf(p, 'start_column') == zsc))
                ob(Q + 'the text is what was collected', text(get(p, 'data', 'zoi', 'text')) == (('sym', 'zc'),))
                ob(Q + 'the delimiter is kept', text(get(p, 'data', 'zoi', 'term')) in ((('sym', 'D'),), (('word', 0, ln),)))
                ob(Q + 'the opening word is kept', text(get(p, 'data', 'zoi', 'form')) == self.form0)
                ob(Q + 'no quotation is open afterwards', z3.And(oi(zd.obj) == 0, zn == 0))
            else:
                kinds['more'] = 1
                ob(Q + 'its delimiter ends it', z3.Not(eqd))
                ob(Q + 'it stays open', z3.And(oi(zd.obj) != 0, zn == 0))
                t = text(zd)
                full = (('sym', 'zc'), ('lit', b' '), ('word', 0, ln))
                first = ((('sym', 'zc'), ('word', 0, ln)), (('word', 0, ln),))
                ob(Q + 'words are joined by single spaces', z3.BoolVal(True) if t == full and False else
                   z3.And(z3.Implies(self.zempty, t in first), z3.Implies(z3.Not(self.zempty), t == full)))
                ob(Q + 'the delimiter is unchanged', text(gptr('zoi_delim')) == (('sym', 'D'),))
                ob(Q + 'opening word and position unchanged', b_and(text(Ptr(e.global_obj(s, 'zoi_form'), 0)) == self.form0,
                   bv(gread(e, s, 'zoi_start_line'), 32) == zsl, bv(gread(e, s, 'zoi_start_col'), 32) == zsc))
            return
        if self.zoi == 1:
            kinds['delimiter'] = 1
            ob(Q + 'the word after zoi is only the delimiter', kind is None and not toks and G(s, 'kk').eq(B64(0)) and hb.eq(hb0))
            ob(Q + 'the delimiter is the word', text(gptr('zoi_delim')) == (('word', 0, ln),))
            ob(Q + 'the quotation starts empty', z3.And(oi(zd.obj) != 0, zn == 0))
            ob(Q + 'the quotation starts empty (text)', text(zd) == ())
            ob(Q + 'opening word and position unchanged', b_and(text(Ptr(e.global_obj(s, 'zoi_form'), 0)) == self.form0,
               bv(gread(e, s, 'zoi_start_line'), 32) == zsl, bv(gread(e, s, 'zoi_start_col'), 32) == zsc))
            return
        isz, isl = islit(b'zoi'), islit(b"la'o")
        if kind is None:
            ob(Q + 'only zoi and la\'o open a quotation', z3.Or(isz, isl))
            kinds['open'] = 1
            ob(Q + 'opening a quotation adds nothing', not toks and G(s, 'kk').eq(B64(0)) and hb.eq(hb0))
            ob(Q + 'the next word is the delimiter', z3.And(zn != 0, oi(zd.obj) == 0))
            ob(Q + 'position of the quotation', z3.And(bv(gread(e, s, 'zoi_start_line'), 32) == line, bv(gread(e, s, 'zoi_start_col'), 32) == col))
            fo = e.global_obj(s, 'zoi_form')
            for i in range(5):
                fb = peek(e, s, Ptr(fo, i))
                if i < 4: ob(Q + 'the opening word', z3.Implies(isz, fb == b'zoi\0'[i]))
                ob(Q + 'the opening word', z3.Implies(isl, fb == b"la'o\0"[i]))
            return
        kinds[kind] = 1
        ob(Q + 'zoi and la\'o open a quotation', z3.Not(z3.Or(isz, isl)))
        kk = G(s, 'kk')
        if not s.ghost.get('nested'):
            ob(P + 'no quotation is opened by other words', z3.And(oi(zd.obj) == 0, zn == 0))
        if kind in ('MT_BOGUS', 'MT_BAD_UPPERCASE', 'MT_CMENE bad'):
            ob(P + 'a word that is none is reported', hb != 0)
            ob(P + 'a word that is none adds nothing', not toks)
        elif kind == 'MT_CMAVOS':
            ob(P + 'every structure word is looked up', kk == self.m + 1)
            ob(P + 'nothing else is added', not toks)
        elif kind == 'MT_CMENE split':
            ob(P + 'all parts of a split name are analysed', s.ghost.get('segi') == 3 and not toks)
        else:
            if kind in BRIV:
                ob(P + 'every leading structure word is looked up', kk == self.m)
            else:
                ob(P + 'a good name is no error', hb == hb0)
            ob(P + 'one token is added', len(toks) == 1)
            if len(toks) != 1:
                return
            p = toks[0]
            ty = self.en['N_BRIVLA' if kind in BRIV else 'N_CMENE']
            f = ('data', 'brivla', 'word') if kind in BRIV else ('data', 'cmene', 'word')
            ob(P + 'kind of the token', intf(p, 'type') == ty)
            ob(P + 'line of the token', intf(p, 'start_line') == line)
            t = text(get(p, *f))
            a0 = z3.Select(self.A, self.m * 8) if kind in BRIV else B64(0)
            ob(P + 'text of the token', b_and(len(t) == 1 and t[0][0] == 'word', len(t) == 1 and t[0][0] == 'word' and z3.And(bv(t[0][1], 64) == a0, bv(t[0][2], 64) == ln)))
            if kind in BRIV:
                ob(P + 'column of the token', intf(p, 'start_column') == self.colk(self.m))
                ob(P + 'class of the token', intf(p, 'data', 'brivla', 'type') == self.en[BRIV[kind]])
            else:
                ob(P + 'column of the token', intf(p, 'start_column') == col)
            ob(P + 'a new token has no line ends after it', intf(p, 'eols') == 0)
            ob(P + 'errors are kept', z3.Implies(hb0 != 0, hb != 0))

CONST = None
def one(prog, z):
    e = Word(prog).run(z)
    return dict(obls=[(o.name, o.where, o.status, o.backend, o.ms, o.detail) for o in e.obls], inlined=sorted(e.inlined))

def prove(prog):
    return par.pmap(lambda z: one(prog, z), [0, 1, 2], 3, 700)

if __name__ == '__main__':
    t = time.time()
    p = cmavo.load()
    if '-v' in sys.argv:
        e = Word(p).run(int(sys.argv[-1]))
        print(e.summary()[:2], e.inlined, e.lost, time.time() - t)
        for o in e.summary()[2][:14]:
            print(o.name, o.where, o.status, (o.detail or '')[:700])
    else:
        for r in prove(p):
            if 'error' in r: print(r['label'], r['error'], r.get('trace'))
            else: print(r['label'], len(r['obls']), [x[:3] for x in r['obls'] if x[2] != 'proved'][:20])
        print(time.time() - t)
