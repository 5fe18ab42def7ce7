"""Contract of the text scanner parse_file: every iteration consumes one character of the text and makes exactly the
calls the specification of that character prescribes (ghost: comment depth, line, column, start of the current word)."""
import sys, time, z3
from engine.gotovc import *
from engine import tree, par
from checks import cmavo, morf_l1

B64 = lambda v: z3.BitVecVal(v, 64)
B32 = lambda v: z3.BitVecVal(v, 32)
SEP = b' \t\n.>('
DIGITS = [b"no", b"pa", b"re", b"ci", b"vo", b"mu", b"xa", b"ze", b"bi", b"so"]
MAXW = 65535
I32 = T('int', 32, True)

def simp_(x):
    return z3.simplify(x) if z3.is_expr(x) else x

def peek(e, st, p):
    """ghost read of a byte, without obligations"""
    s = e.safety
    e.safety = False
    try:
        return bv(e.read(st, p, T('int', 8, False)), 8)
    finally:
        e.safety = s

def gread(e, st, sym, t=I32):
    s = e.safety
    e.safety = False
    try:
        return e.read(st, Ptr(e.global_obj(st, sym), 0), t)
    finally:
        e.safety = s

def gwrite(e, st, sym, v, t=I32):
    e.write(st, Ptr(e.global_obj(st, sym), 0), t, v)

def char_arrays(e, st):
    """writable byte arrays: locals and globals of array-of-char type"""
    out = []
    fids = {f[0] for f in st.frames}
    for k, v in st.env.items():
        if k[0] == 'obj' and k[1] in fids:
            t = e.prog.typ(e.prog.sym[k[2]]['type'])
            if t.k == 'array' and t.to.k == 'int' and t.to.w == 8:
                out.append((k[2], v))
    for sym, oid in e.gobj.items():
        if oid in st.mem and not st.mem[oid].const and sym in e.prog.sym:
            t = e.prog.typ(e.prog.sym[sym]['type'])
            if t.k == 'array' and t.to.k == 'int' and t.to.w == 8:
                out.append((sym, oid))
    return out

def strcpy_model(e, st, a, ts):
    """copies a string literal (concrete contents)"""
    src = e._resolve(st, a[1])
    if not isinstance(src.obj, int) or not isinstance(src.off, int):
        raise Unsupported('strcpy of an unknown string')
    i = 0
    T8 = T('int', 8, True)
    while True:
        b = e.read(st, Ptr(src.obj, src.off + i), T8)
        if not isinstance(b, int):
            b = simp_(b)
            if not z3.is_bv_value(b):
                raise Unsupported('strcpy of a string that is not constant')
            b = b.as_long()
        e.write(st, Ptr(a[0].obj, cmavo.e_add(a[0].off, i)), T8, b)
        if not b & 255:
            return [(st, a[0])]
        i += 1

def prove(prog):
    e = Engine(prog)
    e.const_globals |= {s for s in morf_l1.statics(prog) if '::' in s or s.startswith('tab') or s == 'cmavo_table'} - \
        {s for s in prog.sym if s.startswith('process_word::') or s.startswith('add_preceding')}
    for s in list(e.const_globals):
        t = prog.typ(prog.sym[s]['type'])
        if t.k == 'array' and t.to.k == 'int' and t.to.w == 8:
            e.const_globals.discard(s)
    st = State()
    Tx = z3.Array('text', z3.BitVecSort(64), z3.BitVecSort(8))
    n, kap = z3.BitVec('text.len', 64), z3.BitVec('kappa', 64)
    st.assume(z3.ULT(n, 1 << 31))
    st.assume(z3.ULT(kap, 1 << 31))
    for k, v in dict(pos=B64(0), depth=B32(0), inw=False, s=B64(0), wl=B32(0), wc=B32(0), line=B32(1), col=B32(0), eof=False).items():
        setG(st, k, v)
    st.ghost['expect'] = ()
    wlen = lambda s: z3.If(zb(G(s, 'inw')), G(s, 'pos') - G(s, 's'), B64(0))
    P = 'text scanner: '
    def fgetc(eng, st0, a, ts):
        eng.oblige(st0, P + 'every call prescribed for a character is made before the next is read', st0.ghost['expect'] == (), eng.where(st0))
        eng.oblige(st0, P + 'nothing is read after the end of the text', b_not(G(st0, 'eof')), eng.where(st0))
        out = []
        kinds = [('eof', None)] + [(c, c) for c in SEP + b')0123456789:'] + [('other', None)]
        for kind, c in kinds:
            for inw in (True, False):
                s = st0.fork()
                s.assume(zb(G(s, 'inw')) == inw)
                if kind == 'eof':
                    s.assume(G(s, 'pos') == n)
                else:
                    s.assume(z3.ULT(G(s, 'pos'), n))
                    ch = z3.Select(Tx, G(s, 'pos'))
                    s.assume(ch == c if c is not None else z3.And(ch != 0, *[ch != x for x in SEP + b')0123456789:']))
                for deep in (True, False):
                    s2 = s.fork()
                    s2.assume((G(s2, 'depth') > 0) == deep)
                    if not eng.feasible(s2):
                        continue
                    pos, line, col = G(s2, 'pos'), G(s2, 'line'), simp_(G(s2, 'col') + 1)
                    setG(s2, 'col', col)
                    word = (('word', G(s2, 's'), pos, G(s2, 'wl'), G(s2, 'wc')),) if inw else ()
                    ex = ()
                    if kind != 'eof':
                        setG(s2, 'pos', simp_(pos + 1))
                    if deep:
                        if c == 0x28: setG(s2, 'depth', simp_(G(s2, 'depth') + 1))
                        elif c == 0x29: setG(s2, 'depth', simp_(G(s2, 'depth') - 1))
                        elif c == 10:
                            setG(s2, 'line', simp_(line + 1)); setG(s2, 'col', B32(0))
                        elif kind == 'eof':
                            ex = (('bad',),)
                            setG(s2, 'eof', True)
                    elif kind == 'eof' or (c is not None and c in SEP):
                        ex = word
                        setG(s2, 'inw', False)
                        if c == 10:
                            ex += (('eol',),)
                            setG(s2, 'line', simp_(line + 1)); setG(s2, 'col', B32(0))
                        elif c == 0x28:
                            setG(s2, 'depth', B32(1))
                        elif kind == 'eof':
                            setG(s2, 'eof', True)
                    elif c is not None and c != 0x29:
                        ex = word + (('lit', b"pi'e" if c == 0x3a else DIGITS[c - 48], line, col),)
                        setG(s2, 'inw', False)
                    elif not inw:
                        setG(s2, 'inw', True); setG(s2, 's', pos); setG(s2, 'wl', line); setG(s2, 'wc', col)
                    s2.ghost['expect'] = ex
                    s2.ghost['char'] = kind
                    out.append((s2, -1 if kind == 'eof' else c if c is not None else z3.ZeroExt(24, z3.Select(Tx, pos))))
        return out
    def zoi_havoc(eng, s):
        gwrite(eng, s, 'zoi_delim_next', fresh_bv('zdn', 32))
        for g in ('zoi_data', 'zoi_delim'):
            eng.write(s, Ptr(eng.global_obj(s, g), 0), prog.typ(prog.sym[g]['type']), fresh_ptr(g))
    def process_word(eng, s, a, ts):
        w = eng.where(s)
        ex = s.ghost['expect']
        if not ex or ex[0][0] not in ('word', 'lit'):
            eng.oblige(s, P + 'no word is analysed that the text does not have', False, w)
            return [(s, fresh_bv('r', 32))]
        x = ex[0]
        s.ghost['expect'] = ex[1:]
        if x[0] == 'word':
            ln = simp_(x[2] - x[1])
            eng.oblige(s, P + 'the word is the letters between the separators', z3.Implies(z3.ULT(kap, ln), peek(eng, s, Ptr(a[0].obj, cmavo.e_add(a[0].off, kap))) == z3.Select(Tx, x[1] + kap)), w)
            eng.oblige(s, P + 'the word ends after its last letter', peek(eng, s, Ptr(a[0].obj, cmavo.e_add(a[0].off, ln))) == 0, w)
            eng.oblige(s, P + 'word length within the analyser\'s precondition', z3.ULE(ln, MAXW), w)
            l, c = x[3], x[4]
        else:
            for i, b in enumerate(x[1] + b'\0'):
                eng.oblige(s, P + 'a digit or colon stands for its number word', peek(eng, s, Ptr(a[0].obj, cmavo.e_add(a[0].off, i))) == b, w)
            l, c = x[2], x[3]
        eng.oblige(s, P + 'line of the word', bv(a[1], 32) == l, w)
        eng.oblige(s, P + 'column of the word', bv(a[2], 32) == c, w)
        hb = gread(eng, s, 'had_bad_tokens')
        hb2 = fresh_bv('had_bad', 32)
        s.assume(z3.Implies(bv(hb, 32) != 0, hb2 != 0))
        gwrite(eng, s, 'had_bad_tokens', hb2)
        zoi_havoc(eng, s)
        return [(s, fresh_bv('r', 32))]
    def mark_eol(eng, s, a, ts):
        ex = s.ghost['expect']
        eng.oblige(s, P + 'line ends are noted exactly at newlines of the text', bool(ex) and ex[0] == ('eol',), eng.where(s))
        s.ghost['expect'] = ex[1:]
        return [(s, None)]
    def exit_(eng, s, a, ts):
        eng.oblige(s, P + 'it gives up only on a word of 4096 letters or more, with an error status', b_and(bv(a[0], 32) != 0, zb(G(s, 'inw')), z3.UGE(wlen(s), 4096)), eng.where(s))
        return [(s, ('exit', a[0]))]
    strlen_no = lambda *x: (_ for _ in ()).throw(Unsupported('strlen'))
    e.contracts.update(fgetc=fgetc, getc=fgetc, _IO_getc=fgetc, getc_unlocked=fgetc, fgetc_unlocked=fgetc, process_word=process_word,
                       mark_eol=mark_eol, exit=exit_, strcpy=strcpy_model)
    def inv(eng, s, entry):
        d, pos = G(s, 'depth'), G(s, 'pos')
        return [('position within the text', z3.ULE(pos, n)), ('comment depth is a count', z3.And(d >= 0, z3.ULE(z3.SignExt(32, d), pos))),
                ('start of the word before the position', z3.Implies(zb(G(s, 'inw')), z3.ULT(G(s, 's'), pos))),
                ('no word inside a comment', z3.Or(z3.Not(zb(G(s, 'inw'))), d == 0)), ('the end has not been read', b_not(G(s, 'eof')))]
    def cands(eng, s, entry):
        out = []
        fid = s.frames[-1][0]
        inw = zb(G(s, 'inw'))
        ln = wlen(s)
        for key, v in list(s.env.items()):
            if key[0] != fid or key[1] == '#ret' or not isinstance(key[1], str):
                continue
            t = prog.typ(prog.sym[key[1]]['type'])
            if t.k == 'int' and t.w in (32, 64) and (z3.is_expr(v) or isinstance(v, int)):
                x = bv(v, t.w)
                for g in ('depth', 'line', 'col'):
                    gv = G(s, g) if t.w == 32 else z3.SignExt(32, G(s, g))
                    out.append(('%s==%s' % (key[1], g), x == gv, (key, gv)))
                for g in ('wl', 'wc'):
                    gv = G(s, g) if t.w == 32 else z3.SignExt(32, G(s, g))
                    out.append(('%s==%s in a word' % (key[1], g), z3.Implies(inw, x == gv)))
                out.append(('%s!=0 iff between words' % key[1], (x != 0) == z3.Not(inw)))
                out.append(('%s==0 iff between words' % key[1], (x == 0) == z3.Not(inw)))
                lv = ln if t.w == 64 else z3.Extract(31, 0, ln)
                out.append(('%s==length' % key[1], x == lv, (key, lv)))
            elif t.k == 'ptr' and isinstance(v, Ptr) and any(v.obj is o or (isinstance(v.obj, int) and v.obj == o) for _, o in char_arrays(eng, s)):
                out.append(('%s==end of the letters' % key[1], bv(v.off, 64) == ln, (key, Ptr(v.obj, ln))))
        for nm, o in char_arrays(eng, s):
            if nm.startswith('zoi'):
                continue
            out.append(('letters are in ' + nm, z3.Implies(z3.And(inw, z3.ULT(kap, ln)), peek(eng, s, Ptr(o, kap)) == z3.Select(Tx, G(s, 's') + kap))))
            sz = s.mem[o].size
            if isinstance(sz, int):
                out.append(('letters fit ' + nm, z3.ULE(ln, sz - 1)))
        hb = gread(eng, s, 'had_bad_tokens')
        out.append(('errors stay', z3.Implies(bv(gread(eng, entry.fork(), 'had_bad_tokens'), 32) != 0, bv(hb, 32) != 0)))
        return out
    def on_back(eng, b, head, entry):
        eng.oblige(b, P + 'every call prescribed for a character is made', b.ghost['expect'] == (), 'parse_file loop')
        eng.oblige(b, P + 'every iteration consumes a character (the scan ends)', z3.UGT(G(b, 'pos'), G(head, 'pos')), 'parse_file loop')
    def loops(f, pc):
        return LoopSpec(inv, cands, None, on_back, None, P + 'loop over the text') if f.heads.index(pc) == 0 and f.name == 'parse_file' else None
    e.loop_for = loops
    e.verbose = "-v" in sys.argv
    zd = prog.typ(prog.sym['zoi_data']['type'])
    e.write(st, Ptr(e.global_obj(st, 'zoi_data'), 0), zd, Ptr(0, 0))
    f = e.new_obj(st, 'FILE', 216)
    res = e.run_function(st, 'parse_file', [Ptr(f, 0)])
    ends = 0
    for s, r in res:
        if isinstance(r, tuple) and r and r[0] == 'exit':
            continue
        ends += 1
        ex = s.ghost['expect']
        hb = bv(gread(e, s, 'had_bad_tokens'), 32)
        e.oblige(s, P + 'the whole text is read', zb(G(s, 'eof')), 'parse_file exit')
        e.oblige(s, P + 'every call prescribed for the end of the text is made', all(x == ('bad',) for x in ex), 'parse_file exit')
        if ('bad',) in ex:
            e.oblige(s, P + 'an unclosed comment is reported', hb != 0, 'parse_file exit')
        zdp = e.read(s, Ptr(e.global_obj(s, 'zoi_data'), 0), zd)
        zn = bv(gread(e, s, 'zoi_delim_next'), 32)
        e.oblige(s, 'P06 an unfinished foreign quotation is reported', z3.Implies(z3.Or(oi(zdp.obj) != 0, zn != 0), hb != 0), 'parse_file exit')
    e.oblige(State(), 'vacuity: the scanner can finish', ends > 0, 'parse_file')
    return e

if __name__ == '__main__':
    t = time.time()
    p = cmavo.load()
    e = prove(p)
    print(e.summary()[:2], e.inlined, e.lost, time.time() - t)
    for o in e.summary()[2][:10]:
        print(o.name, o.where, o.status, (o.detail or '')[:1500])
