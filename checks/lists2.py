"""Quotations, compounds, letters, emphasis and attitude words: the passes of lex2.c that also build texts.

Texts are ghost values: TXT[object] is the text a character pointer refers to (an id), CAT joins two texts, LEN gives the
length of a text, cap[object] the size of a block.  new_string, strcat and friends act on these; a buffer that is too
short is an obligation."""
import sys, z3
from engine.gotovc import *
from checks.lists import Pass, I, CONST, Order, path, G, setG
from checks import conv

ASSUME = ['texts inside one run stay below 2^30 bytes', 'the list head is a marker that is not a word (static, zero at the start)',
          'a structure word token carries the class the table gives for its code (established by lookup, P04)',
          'string functions of the C library (strlen, strcpy, strcat, strcmp) and the allocator by contract']
LIT = {}
def lit(b):
    """the id of a literal text"""
    if isinstance(b, str):
        b = b.encode()
    if b not in LIT:
        LIT[b] = -1 - len(LIT)
    return z3.IntVal(LIT[b])
EMPTY = lit(b'')
LEN = z3.Function('length', I, BV64)
CATF = z3.Function('cat', I, I, I)
WORDOF = z3.Function('word of the table', BV64, I)
SELOF = z3.Function('selmao of the table', BV64, z3.BitVecSort(16))
def cat(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(a) and a.eq(EMPTY):
        return b
    if z3.is_int_value(b) and b.eq(EMPTY):
        return a
    if z3.is_app(b) and b.decl().eq(CATF):
        return CATF(cat(a, b.arg(0)), b.arg(1))
    return CATF(a, b)
TXT, CAP, ALIVE = ('txt',), ('cap',), ('alive',)
DATA = 72

class TextPass(Pass):
    def __init__(self, prog, fn, title):
        super().__init__(prog, fn, title)
        e, st = self.e, self.st
        TN = self.TN
        for nm in (('ui_next',), ('ui_prev',), ('data', 'zo', 'text'), ('data', 'lohu', 'text'), ('data', 'bu', 'word'), ('data', 'zoi', 'text'), ('data', 'brivla', 'word'), ('data', 'cmene', 'word'), ('data', 'garbage', 'word'),
                   ('data', 'zei', 'sep_with_zei'), ('data', 'zei', 'sep_with_plus'), ('data', 'zei', 'children'), ('data', 'zei', 'nchildren'), ('data', 'zoi', 'form'), ('data',)):
            self.o['.'.join(nm)] = path(prog, TN, *nm)
        self.data0 = self.o['data'][0]
        tt = prog.typ(prog.sym['cmavo_table']['type'])
        el = tt.to if isinstance(tt.to, T) else prog.typ(tt.to)
        self.tab = path(prog, el, 'cmavo'), path(prog, el, 'selmao')
        self.entry = prog.sizeof(el)
        self.tablen = prog.sizeof(tt) // self.entry
        e.const_globals.add('cmavo_table')
        self.table = self.static_table(st)
        st.assume(self.B > 1000000)
        self.txt0 = z3.Array('texts', I, I)
        self.cap0 = z3.Array('sizes', I, BV64)
        st.heap[TXT], st.heap[CAP] = self.txt0, self.cap0
        self.pre[TXT], self.pre[CAP] = self.txt0, self.cap0
        top = z3.Int('top0')
        st.assume(top > self.B + self.n)
        setG(st, 'top', top)
        st.assume(z3.Select(self.pre[self.K['type']], self.T) == self.c['N_MARKER'])      # static, zero at the start
        e.contracts.update(strlen=self.c_strlen, strcpy=self.c_strcpy, strcat=self.c_strcat, strcmp=self.c_strcmp, new_node=self.c_new_node, Malloc=self.malloc,
                           build_string_from_nodes=self.c_build, build_string_from_node=lambda g, s, a, ts: self.c_build(g, s, [a[0], a[0]], ts))
        e.heap_byte = self.byte
        e.view = self.viewed
        for k in (self.kap, self.lam):
            self.initial(st, k)
        self.bad(st)
    # ---------------------------------------------------------- tables and texts
    def static_table(self, st):
        o = self.e.gobj.get('cmavo_table')
        if o is None:
            o = next(self.e.oid)
            self.e.gobj['cmavo_table'] = o
            self.e.names[o] = 'cmavo_table'
        m = MObj(o, 'cmavo_table', self.prog.sizeof(self.prog.typ(self.prog.sym['cmavo_table']['type'])), True)
        st.mem[o] = m
        def hook(s, p, t):
            off = bv(p.off, 64)
            if t.k == 'ptr':
                return Ptr(WORDOF(z3.simplify(off - self.tab[0][0])), 0)
            return SELOF(z3.simplify(off - self.tab[1][0]))
        self.e.read_hook[o] = hook
        return o
    def entry_of(self, code):
        return z3.simplify(z3.SignExt(32, code) * z3.BitVecVal(self.entry, 64))
    def ent(self, s, x):
        return self.entry_of(z3.Select(self.e.heap_arr(s, (32, self.o['code'][0])), x))
    def textobj(self, s, x):
        """the object that holds the text of a word"""
        t = z3.Select(self.arr(s, 'type'), x)
        po = lambda nm: z3.Select(self.e.heap_arr(s, ('po', self.o[nm][0])), x)
        c = self.c
        return z3.If(t == c['N_CMAVO'], WORDOF(self.ent(s, x)), z3.If(t == c['N_ZOI'], po('data.zoi.text'), z3.If(t == c['N_ZEI'], po('data.zei.sep_with_zei'), po('data.zo.text'))))
    def raw(self, s, x):
        return z3.Select(s.heap[TXT], self.textobj(s, x))
    def show(self, s, x):
        """how a word is shown inside a quotation or compound"""
        t = z3.Select(self.arr(s, 'type'), x)
        c, r = self.c, self.raw(s, x)
        return z3.If(t == c['N_ZOI'], cat(cat(lit('zoi+"'), r), lit('"')), z3.If(t == c['N_ZO'], cat(lit('zo+'), r), z3.If(t == c['N_LOhU'], cat(cat(lit("lo'u "), r), lit(" le'u")), z3.If(t == c['N_BROKEN_ERASURE'], lit('<Defective erasure>'), r))))
    def text_ok(self, s, x, top):
        """a word's text is there, in its own block"""
        t = z3.Select(self.arr(s, 'type'), x)
        o = self.textobj(s, x)
        off = z3.Select(self.e.heap_arr(s, ('pf', self.o['data.zo.text'][0])), x)
        offz = z3.Select(self.e.heap_arr(s, ('pf', self.o['data.zoi.text'][0])), x)
        offe = z3.Select(self.e.heap_arr(s, ('pf', self.o['data.zei.sep_with_zei'][0])), x)
        c = self.c
        code = z3.Select(self.e.heap_arr(s, (32, self.o['code'][0])), x)
        n = self.tablen
        return z3.And(z3.Implies(t != c['N_BROKEN_ERASURE'], z3.And(o > self.B + self.n, o <= top, z3.Select(s.heap[ALIVE], o), z3.ULT(LEN(z3.Select(s.heap[TXT], o)), 1 << 30))),
                      z3.If(t == c['N_ZOI'], offz == 0, z3.If(t == c['N_ZEI'], offe == 0, z3.Or(t == c['N_CMAVO'], t == c['N_BROKEN_ERASURE'], off == 0))),
                      z3.Implies(t == c['N_CMAVO'], z3.And(code >= 0, code < n)))
    def initial(self, s, k):
        super().initial(s, k)
        if not hasattr(self, 'txt0'):
            return
        f = State(); f.heap = dict(self.pre); f.heap[ALIVE] = self.ALIVE
        x = self.B + k
        s.assume(z3.Implies(z3.And(0 <= k, k < self.n), z3.And(self.text_ok(f, x, z3.Int('top0')), *self.word_facts(f, x, k))))
    def word_facts(self, f, x, k):
        return []
    def tid(self, s, p):
        """text of a pointer"""
        p = self.e.fix_off(s, self.e._resolve(s, p))
        if isinstance(p.obj, int) and p.obj not in self.e.heap_objs and self.e.obj(s, p.obj).const:
            b = b''
            while True:
                v = conv.quiet(self.e, lambda: self.e.read(s, Ptr(p.obj, p.off + len(b)), T('int', 8, False)))
                v = v if isinstance(v, int) else z3.simplify(v).as_long()
                if not v & 255:
                    break
                b += bytes([v & 255])
            r = lit(b)
            s.assume(LEN(r) == len(b))
            return r
        self.e.oblige(s, self.P + 'texts are read from their start, and only while they are there', z3.And(bv(p.off, 64) == 0, z3.Select(s.heap[ALIVE], oi(p.obj))), self.e.where(s))
        r = z3.simplify(z3.Select(s.heap[TXT], oi(p.obj)))
        s.assume(z3.ULT(LEN(r), 1 << 30))
        return r
    def put(self, s, p, t):
        p = self.e.fix_off(s, p)
        ob = oi(p.obj)
        self.e.oblige(s, self.P + 'a text is written to the start of a block that is there, with room for it', z3.And(bv(p.off, 64) == 0, z3.Select(s.heap[ALIVE], ob), ob > G(self.st, 'top'), z3.ULT(LEN(t), z3.Select(s.heap[CAP], ob))), self.e.where(s))
        s.assume(z3.ULT(LEN(t), 1 << 30))          # texts stay below 2^30 bytes
        s.heap[TXT] = z3.Store(s.heap[TXT], ob, t)
    def lens(self, s, t):
        """lengths of joined texts"""
        t = z3.simplify(t)
        if z3.is_app(t) and t.decl().eq(CATF):
            self.lens(s, t.arg(0)); self.lens(s, t.arg(1))
            s.assume(LEN(t) == LEN(t.arg(0)) + LEN(t.arg(1)))
        elif z3.is_int_value(t):
            for b, v in LIT.items():
                if v == t.as_long():
                    s.assume(LEN(t) == len(b))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            self.lens(s, t.arg(1)); self.lens(s, t.arg(2))
        return t
    def c_strlen(self, e, s, a, ts):
        t = self.lens(s, self.tid(s, a[0]))
        return [(s, LEN(t))]
    def c_strcpy(self, e, s, a, ts):
        t = self.lens(s, self.tid(s, a[1]))
        self.put(s, a[0], t)
        return [(s, a[0])]
    def c_strcat(self, e, s, a, ts):
        t = self.lens(s, cat(self.tid(s, a[0]), self.tid(s, a[1])))
        self.put(s, a[0], t)
        return [(s, a[0])]
    def c_strcmp(self, e, s, a, ts):
        x, y = self.tid(s, a[0]), self.tid(s, a[1])
        r = z3.BitVec(fresh_name('cmp'), 32)
        s.assume((r == 0) == (x == y))
        return [(s, r)]
    def byte(self, s, p, v):
        z = isinstance(v, int) and v & 255 == 0 or (z3.is_expr(v) and z3.is_bv_value(z3.simplify(v)) and z3.simplify(v).as_long() & 255 == 0)
        if z and isinstance(p.off, int) and p.off == 0:
            s.assume(LEN(EMPTY) == 0)
            self.put(s, p, EMPTY)
            return True
        if isinstance(p.off, int) and p.off >= self.data0:
            return False          # a byte-sized field of a word
        raise Unsupported('a byte of a text is written')
    def new(self, s):
        f = z3.Int(fresh_name('new'))
        s.assume(z3.And(f > G(s, 'top'), z3.Not(z3.Select(s.heap[ALIVE], f))))
        s.heap[ALIVE] = z3.Store(s.heap[ALIVE], f, z3.BoolVal(True))
        setG(s, 'top', f)
        return f
    def malloc(self, e, s, a, ts):
        f = self.new(s)
        s.heap[CAP] = z3.Store(s.heap[CAP], f, bv(a[0], 64))
        return [(s, Ptr(f, 0))]
    def c_new_node(self, e, s, a, ts):
        return [(s, Ptr(self.new(s), 0))]
    # ---------------------------------------------------------- the contract of build_string_from_nodes
    def c_build(self, e, s, a, ts):
        raise Unsupported('build_string_from_nodes')
    # ---------------------------------------------------------- unions
    def viewed(self, s, p, c):
        off = p.off
        if off < self.data0 or isinstance(p.obj, int):
            return
        k = self.c
        t = z3.Select(self.arr(s, 'type'), oi(p.obj))
        ok = {32: {self.data0: ['N_CMAVO', 'N_BROKEN_ERASURE', 'N_ZEI'], self.o['code'][0]: ['N_CMAVO']},
              'p': {self.data0: ['N_GARBAGE', 'N_ZO', 'N_LOhU', 'N_BU', 'N_BRIVLA', 'N_CMENE', 'N_ZOI'], self.o['data.zoi.text'][0]: ['N_ZOI', 'N_ZEI'], self.o['data.zei.children'][0]: ['N_ZEI', 'N_ZOI'], self.o['data.zei.sep_with_zei'][0]: ['N_ZEI']}}
        ks = ok.get(c, {}).get(off)
        if ks is None:
            return
        self.e.oblige(s, self.P + 'a field of a word is read as what it is', z3.Or(*[t == k[x] for x in ks]), self.e.where(s))
    # ---------------------------------------------------------- invariants
    out_kinds = ()
    free_keys = ()           # fields that only the turn's own rule speaks about
    codekey = None
    def keys(self, s):
        return [k for k in super().keys(s) if k not in (TXT, CAP)]
    def fixed(self, s, D, d, i):
        return super().fixed(s, D, d, i) + [('blocks handed out later lie above', G(s, 'top') >= z3.Int('top0')),
                ('the list head is not a word', z3.Select(self.arr(s, 'type'), self.T) == self.c['N_MARKER'])]
    def expect(self, key, a):
        """what a field of a kept word should be, if not what it was (None: what it was)"""
        return None
    def changed_word(self, s, x):
        """is this kept word one the pass has turned into something else"""
        return z3.BoolVal(False)
    def contents(self, s, D, d, i, k):
        out = []
        top = G(s, 'top') if ('g', 'top') in s.env else self.top
        pf = State(); pf.heap = dict(self.pre)
        for key in self.keys(s):
            if key == self.codekey:
                continue
            cur = self.expect(key, k)
            now = z3.Select(s.heap[key], self.B + k)
            if cur is None:
                out.append(('words to come keep field %s' % (key,), z3.Implies(z3.And(i <= k, k < self.n), self.same(s, key, self.B + k))))
            else:
                out.append(('words to come keep field %s' % (key,), z3.Implies(z3.And(i < k, k < self.n), self.same(s, key, self.B + k))))
                out.append(('the current word has its field %s' % (key,), z3.Implies(z3.And(i == k, k < self.n), now == cur)))
            w = z3.Select(D, k)
            x = self.B + w
            kc = self.expect(key, w)
            if key in self.free_keys:
                continue
            eq = self.same(s, key, x) if kc is None else z3.Select(s.heap[key], x) == kc
            ty = key in (self.K['type'], (8,)) or (len(key) > 1 and isinstance(key[1], int) and key[1] >= self.data0)
            out.append(('kept words keep field %s' % (key,), z3.Implies(z3.And(0 <= k, k < d), z3.Or(eq, self.changed_word(s, x)) if ty else eq)))
        x = self.B + z3.Select(D, k)
        out.append(('texts of words to come are there', z3.Implies(z3.And(i <= k, k < self.n), self.text_ok(s, self.B + k, top))))
        out.append(('texts of words to come', z3.Implies(z3.And(i <= k, k < self.n, self.ty0(k) != self.c['N_BROKEN_ERASURE']), self.raw(s, self.B + k) == self.raw(pf, self.B + k))))
        t = z3.Select(self.arr(s, 'type'), x)
        out.append(('kept words are of the right kinds and have their texts', z3.Implies(z3.And(0 <= k, k < d), z3.And(z3.Or(*[t == self.c[q] for q in self.in_kinds + list(self.out_kinds)]), self.text_ok(s, x, top),
                   z3.Or(self.raw(s, x) == self.raw(pf, x), self.changed_word(s, x), t == self.c['N_BROKEN_ERASURE'])))))
        return out
    def main_spec(self):
        sp = super().main_spec()
        oh, os = sp.on_head, sp.step
        def on_head(eng, h, entry):
            self.top = G(h, 'top')
            self.bad_head = self.bad(h)
            oh(eng, h, entry)
        def step(eng, b, head, entry):
            os(eng, b, head, entry)
            H, r = self.head, self.turn
            D, d, i, a = H['D'], H['d'], H['i'], r['a']
            where = self.fn + ' loop'
            f = self.frozen
            tgt = r.get('target', z3.IntVal(-5))           # index of a kept word that this turn may change
            k = self.kap
            x = self.dn(D, k)
            for key in self.keys(b):
                if key not in f.heap:
                    continue
                same = lambda y: z3.Select(b.heap[key], y) == z3.Select(f.heap[key], y)
                eng.oblige(b, self.P + 'nothing else is changed: %s' % (key,), z3.And(z3.Implies(z3.And(0 <= k, k < a, k != tgt), same(x)), z3.Implies(z3.And(z3.Not(r.get('hit', z3.BoolVal(False)))), same(self.B + i))), where)
            eng.oblige(b, self.P + 'texts of other words are left alone', z3.Implies(z3.And(0 <= k, k < a, k != tgt, z3.Select(self.arr(f, 'type'), x) != self.c['N_BROKEN_ERASURE']), self.raw(b, x) == self.raw(f, x)), where)
            y = self.B + k
            last = z3.If(d == 0, z3.IntVal(-1), z3.Select(D, d - 1))
            eng.oblige(b, self.P + 'links of words taken out earlier are left alone', z3.Implies(z3.And(0 <= k, k < i, k != last, *[k != q for q in r.get('relinked', ())]), z3.And(z3.Select(self.arr(b, 'next'), y) == z3.Select(self.arr(f, 'next'), y), z3.Select(self.arr(b, 'prev'), y) == z3.Select(self.arr(f, 'prev'), y))), where)
            err = r.get('error')
            if err is not None:
                eng.oblige(b, self.P + 'an error ends the program', z3.Not(err), where)
            if self.bad_head is not None:
                eng.oblige(b, self.P + 'misplaced words are reported, and only they', bv(self.bad(b), 32) == z3.If(r.get('bad', z3.BoolVal(False)), z3.BitVecVal(1, 32), bv(self.bad_head, 32)), where)
        sp.on_head, sp.step = on_head, step
        return sp
    def bad(self, s):
        return None
    def more_frame(self, s):
        fr = {('heap', TXT): 'arr', ('heap', CAP): 'arr', ('env', ('g', 'top')): 'int'}
        for nm in self.written:
            fr[('heap', ('po', self.o[nm][0]))] = 'arr'
            fr[('heap', ('pf', self.o[nm][0]))] = 'arr'
        if self.bad(s) is not None:
            fr[('mem', self.e.gobj['had_bad_tokens'], 32, 0)] = 'int'
        return fr
    written = ()
    def on_exit(self, s, code):
        err = self.turn.get('error') if hasattr(self, 'turn') else None
        self.e.oblige(s, self.P + 'the program ends, with status 1, only where the language has an error', z3.And(err, bv(code, 32) == 1) if err is not None else False, self.fn)
    def at_end(self, s, D, d, i):
        super().at_end(s, D, d, i)
        if self.turn.get('error') is not None:
            pass

class Bads(TextPass):
    """passes that report errors in had_bad_tokens"""
    def bad(self, s):
        o = self.e.global_obj(s, 'had_bad_tokens')
        return conv.quiet(self.e, lambda: self.e.read(s, Ptr(o, 0), T('int', 32, True)))

class Zo(TextPass):
    """zo: the next word, whatever it is, is quoted"""
    in_kinds = ['N_CMAVO', 'N_BRIVLA', 'N_CMENE', 'N_ZOI', 'N_GARBAGE']
    out_kinds = ['N_ZO']
    cases = ['other'] + in_kinds
    written = ['data.zo.text', 'data.zoi.form', 'data.zoi.text', 'data.zei.children', 'data.zei.sep_with_zei', 'data.zei.sep_with_plus']
    def __init__(self, prog, case):
        super().__init__(prog, 'handle_zo', 'zo: ')
        self.case = case
    def word_facts(self, f, x, k):
        return [z3.Implies(self.ty0(k) == self.c['N_CMAVO'], z3.SignExt(16, SELOF(self.ent(f, x))) == self.sel0(k))]
    def changed_word(self, s, x):
        return z3.And(z3.Select(self.arr(s, 'type'), x) == self.c['N_ZO'], z3.Select(self.pre[self.K['type']], x) == self.c['N_CMAVO'], z3.Select(self.pre[self.K['selmao']], x) == self.c['ZO'])
    def rule(self, h, D, d, i):
        hit = z3.And(self.is_cm(i, 'ZO'), i + 1 < self.n)
        def must(b):
            x = self.B + i
            return [('a word after zo becomes its quotation', z3.Implies(hit, z3.And(z3.Select(self.arr(b, 'type'), x) == self.c['N_ZO'], self.raw(b, x) == self.raw(self.frozen, self.B + i + 1))))]
        return dict(a=d, keep=True, i=z3.If(hit, i + 2, i + 1), hit=hit, error=z3.And(i < self.n, self.is_cm(i, 'ZO'), i + 1 == self.n), must=must, idx=[z3.IntVal(0), z3.IntVal(-1)],
                    cases={'other': z3.Not(hit), **{k: z3.And(hit, self.ty0(i + 1) == self.c[k]) for k in self.cases[1:]}})
    def inner(self, f, pc):
        return None

class Lohu(TextPass):
    """lo'u: everything up to the next le'u is quoted"""
    in_kinds = Zo.in_kinds[:4] + ['N_ZO']
    out_kinds = ['N_LOhU']
    written = ['data.zo.text']
    def __init__(self, prog):
        super().__init__(prog, 'handle_lohu', "lo'u: ")
    def changed_word(self, s, x):
        return z3.And(z3.Select(self.arr(s, 'type'), x) == self.c['N_LOhU'], z3.Select(self.pre[self.K['type']], x) == self.c['N_CMAVO'], z3.Select(self.pre[self.K['selmao']], x) == self.c['LOhU'])
    def ax(self, k):
        """j is the first le'u"""
        i, j = self.head['i'], self.j
        return [z3.Implies(z3.And(i < k, k < j), z3.Not(self.is_cm(k, 'LEhU'))), z3.Implies(z3.And(k == j, j < self.n), self.is_cm(j, 'LEhU'))]
    def rule(self, h, D, d, i):
        j = self.j = z3.Int(fresh_name("le'u"))
        self.span = z3.Int(fresh_name('words between'))
        h.assume(z3.And(i < self.n, i + 1 <= j, j <= self.n) if False else z3.Implies(i < self.n, z3.And(i + 1 <= j, j <= self.n)))
        for k in (j, i + 1, j - 1):
            for c in self.ax(k):
                h.assume(c)
        q = z3.And(i < self.n, self.is_cm(i, 'LOhU'))
        hit = z3.And(q, j < self.n)
        def must(b):
            x = self.B + i
            return [("the words up to le'u become a quotation", z3.Implies(hit, z3.And(z3.Select(self.arr(b, 'type'), x) == self.c['N_LOhU'], self.raw(b, x) == z3.If(j == i + 1, EMPTY, self.span))))]
        return dict(a=d, keep=True, i=z3.If(hit, j + 1, i + 1), hit=hit, error=z3.And(q, j == self.n), must=must, idx=[z3.IntVal(0), z3.IntVal(-1), j, j - 1, j + 1])
    def inner(self, f, pc):
        d, i = self.head['d'], self.head['i']
        return self.scan_spec('ahead', d + 1, d + 1, d + self.j - i, 1, lambda s, p: self.ax(self.wi(p)))
    def c_build(self, e, s, a, ts):
        i = self.head['i']
        k = self.kap
        e.oblige(s, self.P + 'the words have texts and are linked when their text is built', z3.Implies(z3.And(i < k, k < self.j), z3.And(self.text_ok(s, self.B + k, G(s, 'top')), z3.Or(*[z3.Select(self.arr(s, 'type'), self.B + k) == self.c[q] for q in Build.in_kinds]),
                 z3.Implies(k + 1 < self.j, z3.Select(self.arr(s, 'next'), self.B + k) == self.B + k + 1))), e.where(s))
        e.oblige(s, self.P + "the text is built from the words after lo'u up to the one before le'u", z3.And(i + 1 < self.j, oi(a[0].obj) == self.B + i + 1, oi(a[1].obj) == self.B + self.j - 1), e.where(s))
        f = self.new(s)
        s.assume(z3.ULT(LEN(self.span), 1 << 30))
        s.heap[TXT] = z3.Store(s.heap[TXT], f, self.span)
        return [(s, Ptr(f, 0))]

class Bahe(TextPass):
    """ba'e: taken out, attached to the next word"""
    in_kinds = ['N_CMAVO', 'N_BRIVLA', 'N_CMENE', 'N_ZOI', 'N_ZO', 'N_LOhU', 'N_ZEI', 'N_BROKEN_ERASURE']
    def __init__(self, prog):
        super().__init__(prog, 'handle_bahe', "ba'e: ")
    def hit(self, a):
        return z3.And(0 <= a, a + 1 < self.n, self.is_cm(a, 'BAhE'), z3.Not(self.is_cm(a + 1, 'FAhO')))
    def expect(self, key, a):
        if key != self.K['bahe']:
            return None
        return z3.If(self.hit(a - 1), self.B + a - 1, z3.Select(self.pre[key], self.B + a))
    def rule(self, h, D, d, i):
        hit = self.hit(i)
        return dict(a=d, keep=z3.Not(hit), i=i + 1, idx=[z3.IntVal(0), z3.IntVal(-1)])
    def inner(self, f, pc):
        return None

class Bu(Bads):
    """bu: the word before it becomes a letter"""
    in_kinds = ['N_CMAVO', 'N_BRIVLA', 'N_CMENE', 'N_ZOI', 'N_ZO', 'N_LOhU', 'N_ZEI', 'N_BROKEN_ERASURE', 'N_GARBAGE']
    out_kinds = ['N_BU']
    cases = ['other'] + in_kinds + out_kinds
    written = ['data.zo.text']
    def __init__(self, prog, case):
        super().__init__(prog, 'handle_bu', 'bu: ')
        self.case = case
    def changed_word(self, s, x):
        return z3.And(z3.Select(self.arr(s, 'type'), x) == self.c['N_BU'], z3.Select(self.pre[self.K['type']], x) == self.c['N_CMAVO'], z3.Select(self.pre[self.K['selmao']], x) == self.c['BU'])
    def letter(self, f, y):
        t = z3.Select(self.arr(f, 'type'), y)
        c, r = self.c, self.raw(f, y)
        return z3.If(t == c['N_ZO'], cat(lit('zo'), r), z3.If(t == c['N_BU'], cat(r, lit('.bu')), z3.If(t == c['N_LOhU'], cat(cat(lit("lo'u-"), r), lit("-le'u")), z3.If(t == c['N_BROKEN_ERASURE'], lit('<Defective erasure>'), r))))
    def rule(self, h, D, d, i):
        bu = self.is_cm(i, 'BU')
        hit = z3.And(bu, d > 0)
        y = self.dn(D, d - 1)
        def must(b):
            x = self.B + i
            return [('the word before bu becomes a letter', z3.Implies(hit, z3.And(z3.Select(self.arr(b, 'type'), x) == self.c['N_BU'], self.raw(b, x) == self.letter(self.frozen, y))))]
        return dict(a=z3.If(hit, d - 1, d), keep=True, i=i + 1, hit=hit, bad=z3.And(bu, d == 0), must=must, idx=[z3.IntVal(0), z3.IntVal(-1)], relinked=[z3.If(d < 2, z3.IntVal(-1), z3.Select(D, d - 2))],
                    cases={'other': z3.Not(hit), **{k: z3.And(hit, z3.Select(self.arr(h, 'type'), y) == self.c[k]) for k in self.cases[1:]}})
    def inner(self, f, pc):
        return None
    def c_build(self, e, s, a, ts):
        e.oblige(s, self.P + 'the text of a compound is built from the compound alone', z3.And(self.text_ok(s, oi(a[0].obj), G(s, 'top')), oi(a[0].obj) == oi(a[1].obj), z3.Select(self.arr(s, 'type'), oi(a[0].obj)) == self.c['N_ZEI']), e.where(s))
        f = self.new(s)
        t = self.lens(s, self.show(s, oi(a[0].obj)))
        s.assume(z3.ULT(LEN(t), 1 << 30))
        s.heap[TXT] = z3.Store(s.heap[TXT], f, t)
        return [(s, Ptr(f, 0))]

IND = ('UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO')
NEG, CAI = ('neg', -1), ('cai', -2)
class Pair(TextPass):
    """nai and cai after an attitude word become its properties"""
    in_kinds = Bu.in_kinds[:-1] + ['N_BU']
    cases = ['other', '-', 'nai'] + [x + w + y for x in ('', 'nai ') for w in ('cai', 'sai', "ru'e", "cu'i", 'pei') for y in ('', ' nai')]
    def __init__(self, prog, case):
        super().__init__(prog, 'pair_off_indicator_suffixes', 'nai, cai: ')
        self.case = case
        e, st = self.e, self.st
        self.codekey = (32, 0)
        for k, srt in ((NEG, z3.BitVecSort(32)), (CAI, I)):
            st.heap[k] = self.pre[k] = z3.Array(k[0], I, srt)
        e.contracts.update(prop_neg_indicator=self.c_neg, prop_cai_indicator=self.c_cai, abort=self.c_abort)
    def more_frame(self, s):
        return {**super().more_frame(s), ('heap', NEG): 'arr', ('heap', CAI): 'arr', ('heap', self.codekey): 'arr'}
    def c_neg(self, e, s, a, ts):
        e.oblige(s, self.P + 'the property is created', bv(a[1], 32) != 0, e.where(s))
        s.heap[NEG] = z3.Store(s.heap[NEG], oi(a[0].obj), z3.BitVecVal(1, 32))
        return [(s, Ptr(self.new(s), 0))]
    def c_cai(self, e, s, a, ts):
        e.oblige(s, self.P + 'the property is created', bv(a[1], 32) != 0, e.where(s))
        f = self.new(s)
        s.heap[CAI] = z3.Store(s.heap[CAI], oi(a[0].obj), f)
        return [(s, Ptr(f, 0))]
    def c_abort(self, e, s, a, ts):
        e.oblige(s, self.P + 'no unexpected intensity word', False, e.where(s))
        return []
    def word_facts(self, f, x, k):
        r = self.raw(f, x)
        return [z3.Implies(self.is_cm(k, 'CAI'), z3.Or(*[r == lit(w) for w in ('cai', 'sai', "ru'e", "cu'i", 'pei')]))]
    def parts(self, a):
        """positions after the suffixes of the attitude word number a"""
        n = self.n
        at = lambda k, w: z3.And(k < n, self.is_cm(k, w))
        n1 = at(a + 1, 'NAI')
        p2 = z3.If(n1, a + 2, a + 1)
        c = z3.And(p2 < n, z3.If(n1, self.is_cm(a + 2, 'CAI'), self.is_cm(a + 1, 'CAI')))
        p3 = p2 + 1
        n2 = z3.And(c, p3 < n, z3.If(n1, self.is_cm(a + 3, 'NAI'), self.is_cm(a + 2, 'NAI')))
        return n1, p2, c, n2, z3.If(c, z3.If(n2, p2 + 2, p2 + 1), p2)
    def code(self, a):
        n1, p2, c, n2, e = self.parts(a)
        pf = State(); pf.heap = dict(self.pre)
        r = z3.If(n1, self.raw(pf, self.B + a + 2), self.raw(pf, self.B + a + 1))
        k = self.c
        out = z3.BitVecVal(k['CC_PEI'], 32)
        out = z3.If(n2, z3.BitVecVal(k['CC_PEINAI'], 32), out)
        for w, x, y in (('cai', 'CC_CAI', 'CC_CAINAI'), ('sai', 'CC_SAI', 'CC_SAINAI'), ("ru'e", 'CC_RUhE', 'CC_RUhENAI'), ("cu'i", 'CC_CUhI', 'CC_CUhI')):
            out = z3.If(r == lit(w), z3.If(n2, z3.BitVecVal(k[y], 32), z3.BitVecVal(k[x], 32)), out)
        return out
    def ind(self, a):
        return z3.And(0 <= a, a < self.n, self.is_cm(a, *IND))
    # what a word has, as names; define() says what they mean
    HASNAI, HASCAI, CODE = z3.Function('has nai', I, z3.BoolSort()), z3.Function('has cai', I, z3.BoolSort()), z3.Function('intensity', I, z3.BitVecSort(32))
    def define(self, s, a):
        n1, p2, c, n2, e = self.parts(a)
        s.assume(self.HASNAI(a) == z3.And(self.ind(a), n1))
        s.assume(self.HASCAI(a) == z3.And(self.ind(a), c))
        s.assume(z3.Implies(self.HASCAI(a), self.CODE(a) == self.code(a)))
    def expect(self, key, a):
        if key == NEG:
            return z3.If(self.HASNAI(a), z3.BitVecVal(1, 32), z3.Select(self.pre[NEG], self.B + a))
        return None
    free_keys = (CAI,)
    def contents(self, s, D, d, i, k):
        # the properties of words to come are not there yet
        out = [x for x in super().contents(s, D, d, i, k) if 'current word has its field' not in x[0] and str(NEG) not in x[0] or 'kept words keep' in x[0]]
        for key in (NEG,):
            out.append(('words to come have no %s yet' % key[0], z3.Implies(z3.And(i <= k, k < self.n), self.same(s, key, self.B + k))))
        w = z3.Select(D, k)
        o = z3.Select(s.heap[CAI], self.B + w)
        top = G(s, 'top') if ('g', 'top') in s.env else self.top
        out.append(('intensities', z3.Implies(z3.And(0 <= k, k < d), z3.If(self.HASCAI(w), z3.And(o > self.B + self.n, o <= top, z3.Select(self.e.heap_arr(s, self.codekey), o) == self.CODE(w)), o == z3.Select(self.pre[CAI], self.B + w)))))
        return out
    def rule(self, h, D, d, i):
        hit = z3.And(i < self.n, self.ind(i))
        n1, p2, c, n2, e = self.parts(i)
        self.define(h, i)
        cs = {'other': z3.Not(hit), '-': z3.And(hit, z3.Not(n1), z3.Not(c)), 'nai': z3.And(hit, n1, z3.Not(c))}
        pf = State(); pf.heap = dict(self.pre)
        for x in ('', 'nai '):
            for w in ('cai', 'sai', "ru'e", "cu'i", 'pei'):
                for y in ('', ' nai'):
                    cs[x + w + y] = z3.And(hit, n1 if x else z3.Not(n1), c, n2 if y else z3.Not(n2), self.raw(pf, self.B + (i + 2 if x else i + 1)) == lit(w))
        return dict(a=d, keep=True, i=z3.If(hit, e, i + 1), hit=hit, idx=[z3.IntVal(0), z3.IntVal(-1), i + 3, i + 4], cases=cs)
    def inner(self, f, pc):
        return None

class Indic(TextPass):
    """runs of attitude words are attached to the word before them; those at the start of the text stay"""
    in_kinds = Pair.in_kinds
    cases = ['start', 'initial', 'word', 'run']
    def __init__(self, prog, case):
        super().__init__(prog, 'handle_indicators', 'attitude: ')
        self.case = case
        e, st = self.e, self.st
        self.UN, self.UP = ('po', self.o['ui_next'][0]), ('po', self.o['ui_prev'][0])
        self.free_keys = (self.UN, self.UP)
        for k in self.free_keys:
            self.pre[k] = e.heap_arr(st, k)
        self.inside = z3.Function('inside', I, I)
        setG(st, 'seen', z3.BoolVal(False))
        setG(st, 'paired', z3.IntVal(0))
        def interior(o, off):
            if off != self.o['ui_next'][0]:
                raise Unsupported('pointer into a word')
            return self.inside(oi(o))
        e.interior = interior
        def paired(eng, s, a, ts):
            eng.oblige(s, self.P + 'suffixes are dealt with before attaching, once', G(s, 'paired') == 0, eng.where(s))
            setG(s, 'paired', z3.IntVal(1))
            return [(s, None)]
        e.contracts['pair_off_indicator_suffixes'] = paired
    def more_frame(self, s):
        return {**super().more_frame(s), ('env', ('g', 'seen')): 'int', ('heap', self.UN): 'arr', ('heap', self.UP): 'arr'}
    def ind(self, a):
        return z3.And(0 <= a, a < self.n, self.is_cm(a, *IND))
    def extra_inv(self, s, D, d, i):
        last = self.B + z3.Select(D, d - 1)
        sn = G(s, 'seen')
        sn = zb(sn)
        out = [('a word to attach to has been kept', z3.Implies(sn, d > 0)), ('suffixes are dealt with first', G(s, 'paired') == 1)]
        out.append(('nothing is attached twice', z3.Implies(z3.And(d > 0, self.ind(i)), z3.And(*[z3.Select(self.e.heap_arr(s, k), last) == z3.Select(self.pre[k], last) for k in self.free_keys]))))
        return out
    def extra_cands(self, s, D, d, i):
        out = []
        fid = s.frames[-1][0]
        for key, v in list(s.env.items()):
            if key[0] == fid and isinstance(key[1], str) and key[1] in self.prog.sym and not isinstance(v, (Ptr, tuple)) and v is not None and not isinstance(v, bool):
                t = self.prog.typ(self.prog.sym[key[1]]['type'])
                if t.k == 'int' and t.w == 32:
                    for c in range(4):
                        out.append(('%s is %d just when a word was seen' % (key[1], c), (bv(v, 32) == c) == zb(G(s, 'seen'))))
                        out.append(('%s is %d just at the start' % (key[1], c), (bv(v, 32) == c) == (i == 0)))
                    out.append(('%s is a state' % key[1], z3.And(bv(v, 32) >= 0, bv(v, 32) <= 3)))
        return out
    def rule(self, h, D, d, i):
        seen = zb(G(h, 'seen'))
        j = self.j = z3.Int(fresh_name('end of the run'))
        h.assume(z3.Implies(self.ind(i), z3.And(i < j, j <= self.n)))
        for k in (j, i, j - 1, i + 1):
            for c in self.ax(i, k):
                h.assume(c)
        hit = z3.And(seen, self.ind(i))
        tgt = self.dn(D, d - 1)
        self.seen0 = seen
        def must(b):
            un, up = self.e.heap_arr(b, self.UN), self.e.heap_arr(b, self.UP)
            nx, pv = self.arr(b, 'next'), self.arr(b, 'prev')
            k = self.kap
            return [('the run is attached to the word before it', z3.Implies(hit, z3.And(z3.Select(un, tgt) == self.B + i, z3.Select(up, tgt) == self.B + j - 1, z3.Select(pv, self.B + i) == self.inside(tgt), z3.Select(nx, self.B + j - 1) == self.inside(tgt)))),
                    ('the run stays in order', z3.Implies(z3.And(hit, i <= k, k < j - 1), z3.And(z3.Select(nx, self.B + k) == self.B + k + 1, z3.Select(pv, self.B + k + 1) == self.B + k))),
                    ('nothing is attached where there is no run', z3.Implies(z3.And(z3.Not(hit), d > 0), z3.And(*[z3.Select(self.e.heap_arr(b, q), tgt) == z3.Select(self.e.heap_arr(self.frozen, q), tgt) for q in self.free_keys]))),
                    ('nothing else of the word is changed', z3.Implies(d > 0, z3.And(*[z3.Select(b.heap[q], tgt) == z3.Select(self.frozen.heap[q], tgt) for q in self.keys(b) if q not in self.free_keys and q in self.frozen.heap])))]
        return dict(a=d, keep=z3.Not(hit), i=z3.If(hit, j, i + 1), hit=hit, target=d - 1, must=must, idx=[z3.IntVal(0), z3.IntVal(-1), j, j - 1, j + 1],
                    cases={'start': i == 0, 'initial': z3.And(i > 0, z3.Not(seen)), 'word': z3.And(i > 0, seen, z3.Not(self.ind(i))), 'run': z3.And(i > 0, hit)})
    def ax(self, i, k):
        return [z3.Implies(z3.And(i <= k, k < self.j), self.ind(k)), z3.Implies(k == self.j, z3.Not(self.ind(k)))]
    def main_spec(self):
        sp = super().main_spec()
        st0 = sp.step
        def step(eng, b, head, entry):
            st0(eng, b, head, entry)
            setG(b, 'seen', z3.simplify(z3.Or(self.seen0, z3.Not(self.ind(self.head['i'])))))
        sp.step = step
        return sp
    def inner(self, f, pc):
        d, i = self.head['d'], self.head['i']
        return self.scan_spec('ahead', d, d, d + self.j - i, 1, lambda s, p: self.ax(i, self.wi(p)))

JP = z3.Function('text so far', I, I)
FINAL = z3.Int('the whole text')
class Build(TextPass):
    """build_string_from_nodes: the words from start to end as text, joined by single spaces.
    JP(k) is the specified text before word k: JP(p) is empty, JP(k+1) = JP(k) + show(k) + " " """
    in_kinds = Zo.in_kinds + ['N_ZO', 'N_LOhU', 'N_ZEI', 'N_BROKEN_ERASURE']
    def __init__(self, prog):
        super().__init__(prog, 'build_string_from_nodes', 'text of words: ')
        e, st = self.e, self.st
        e.contracts.pop('build_string_from_nodes')
        self.p, self.q = z3.Int('first word'), z3.Int('last word')
        self.total = z3.BitVec('length of the text', 64)
        st.assume(z3.And(0 <= self.p, self.p <= self.q, self.q < self.n))
        st.assume(JP(self.p) == EMPTY)
        st.assume(LEN(EMPTY) == 0)
        st.assume(z3.ULT(self.total, 1 << 30))
        self.initial(st, self.q)
        self.base = st.fork()
        self.joined = set()
    def malloc(self, e, s, a, ts):
        """the paths that have gone through the words to measure them meet here: one goes on for all of them, knowing only
        what is proved on each"""
        size, b = bv(a[0], 64), self.base
        e.oblige(s, self.P + 'the block has room for the text', z3.And(z3.ULT(self.total, size), z3.ULT(size, 1 << 31)), e.where(s))
        if any(not s.heap[k].eq(b.heap.get(k, e.heap_arr(b, k))) for k in s.heap):
            raise Unsupported('a text is changed before there is a block for it')
        at = (e.where(s), len(s.frames))
        if at in self.joined:
            return []
        self.joined.add(at)
        s.pc = list(b.pc)
        fids = {fr[0] for fr in s.frames}
        for key, v in list(s.env.items()):
            if v is not None and not isinstance(v, tuple) and key[0] in fids and not any(v is w for w in self.given):
                if isinstance(v, Ptr):
                    s.env[key] = Ptr(z3.Int(fresh_name('joined')), z3.BitVec(fresh_name('joined'), 64))
                elif z3.is_bv(v):
                    s.env[key] = z3.BitVec(fresh_name('joined'), v.size())
                elif isinstance(v, int) and not isinstance(v, bool) and key[1] in self.prog.sym and self.prog.typ(self.prog.sym[key[1]]['type']).k == 'int':
                    s.env[key] = z3.BitVec(fresh_name('joined'), self.prog.typ(self.prog.sym[key[1]]['type']).w)
                else:
                    raise Unsupported('paths with different values of ' + str(key[1]))
        if any(not o.const and '::' in o.name for n, o in s.mem.items() if n not in b.mem):
            raise Unsupported('paths with different local objects')
        s.model = s.model2 = None
        z = z3.BitVec(fresh_name('size'), 64)
        s.assume(z3.And(z3.ULT(self.total, z), z3.ULT(z, 1 << 31)))
        f = self.new(s)
        s.heap[CAP] = z3.Store(s.heap[CAP], f, z)
        return [(s, Ptr(f, 0))]
    def app(self, s, k, kind=None):
        """the text before word k, and word k (and the length of both)"""
        J = JP(k)
        if True:
            f = self.f0()
            o = {'N_CMAVO': WORDOF(self.ent(f, self.B + k)), 'N_ZOI': z3.Select(self.e.heap_arr(f, ('po', self.o['data.zoi.text'][0])), self.B + k), 'N_ZEI': z3.Select(self.e.heap_arr(f, ('po', self.o['data.zei.sep_with_zei'][0])), self.B + k)}
            r = z3.Select(f.heap[TXT], o.get(kind, z3.Select(self.e.heap_arr(f, ('po', self.o['data.zo.text'][0])), self.B + k)))
            out, ln = J, LEN(J)
            for x in {'N_ZOI': [lit('zoi+"'), r, lit('"')], 'N_ZO': [lit('zo+'), r], 'N_LOhU': [lit("lo'u "), r, lit(" le'u")], 'N_BROKEN_ERASURE': [lit('<Defective erasure>')]}.get(kind, [r]):
                self.lens(s, x)
                ln, out = ln + LEN(x), cat(out, x)
            self.lens(s, out)
            return out, ln
    def f0(self):
        f = State(); f.heap = dict(self.pre); f.heap[ALIVE] = self.ALIVE
        return f
    def define(self, s, k, kind):
        """the definition of JP at word k, and the lemma that it only grows"""
        tx, ln = self.app(s, k, kind)
        sp = lit(' ')
        self.lens(s, sp)
        s.assume(z3.Implies(k < self.q, z3.And(JP(k + 1) == cat(tx, sp), LEN(JP(k + 1)) == ln + 1, z3.ULE(LEN(JP(k + 1)), self.total))))
        s.assume(z3.Implies(k == self.q, z3.And(self.total == ln, FINAL == tx, LEN(FINAL) == ln)))
        s.assume(z3.ULE(LEN(JP(k)), self.total))
        s.assume(LEN(tx) == ln)
    def prove(self):
        e, st = self.e, self.st
        # the lemma behind "it only grows": one step never makes the text shorter
        k = z3.Int('word')
        for kd in self.in_kinds:
            lm = State()
            tx, ln = self.app(lm, k, kd)
            w = LEN(z3.Select(self.txt0, self.textobj(self.f0(), self.B + k)))
            lm.assume(self.ty0(k) == self.c[kd])
            e.oblige(lm, self.P + 'a word more makes the text longer (%s)' % kd, z3.Implies(z3.And(z3.ULT(LEN(JP(k)), 1 << 30), z3.ULT(w, 1 << 30)), z3.ULE(LEN(JP(k)), ln)), self.fn)
        def spec():
            def inv(eng, s, entry):
                if s is entry:
                    setG(s, 'pos', self.p); setG(s, 'cnt', z3.BitVecVal(0, 64))
                    self.pos0 = None
                x = G(s, 'pos')
                return [('a word of the stretch is next', z3.And(self.p <= x, x <= self.q)),
                        ('the texts of the words stay', z3.Implies(z3.And(0 <= self.kap, self.kap < self.n, self.ty0(self.kap) != self.c['N_BROKEN_ERASURE']), self.raw(s, self.B + self.kap) == self.raw(self.f0(), self.B + self.kap)))]
            def cands(eng, s, entry):
                x, cnt = G(s, 'pos'), G(s, 'cnt')
                out = []
                for key, v in self.ptr_locals(s):
                    if key[0] is None or key[1] in sp.assigned:
                        out.append(('%s is the next word' % key[1], oi(v.obj) == self.B + x))
                    if not isinstance(v.obj, int):
                        out.append(('%s holds the text so far' % key[1], z3.And(z3.Select(s.heap[TXT], oi(v.obj)) == JP(x), bv(v.off, 64) == 0)))
                fid = s.frames[-1][0]
                for key, v in list(s.env.items()):
                    if key[0] == fid and isinstance(key[1], str) and key[1] in self.prog.sym and not isinstance(v, (Ptr, tuple, bool)) and v is not None:
                        t = self.prog.typ(self.prog.sym[key[1]]['type'])
                        if t.k == 'int' and t.w in (32, 64):
                            lo = lambda y: z3.Extract(t.w - 1, 0, y) if t.w < 64 else y
                            out.append(('%s is room enough for the text so far' % key[1], z3.ULE(bv(v, t.w) - lo(LEN(JP(x))), lo(cnt))))
                return out
            def on_head(eng, h, entry):
                x, cnt = G(h, 'pos'), G(h, 'cnt')
                h.assume(z3.ULT(cnt, 1 << 29))          # fewer than 2^24 words
                self.initial(h, x)
                self.initial(h, z3.simplify(x + 1))
                h.assume(z3.Implies(self.ty0(x) != self.c['N_BROKEN_ERASURE'], self.raw(h, self.B + x) == self.raw(self.f0(), self.B + x)))
            def step(eng, b, head, entry):
                x = z3.simplify(G(head, 'pos') + 1)
                setG(b, 'pos', x); setG(b, 'cnt', z3.simplify(G(head, 'cnt') + 32))
            sp = LoopSpec(inv, cands, on_head, None, step, self.P + self.fn)
            def split(eng, h):
                x = G(h, 'pos')
                out = []
                for kd in self.in_kinds:
                    g = h.fork()
                    g.assume(self.ty0(x) == self.c[kd])
                    self.define(g, x, kd)
                    out.append(g)
                return out
            sp.split = split
            sp.frame = {('env', ('g', 'pos')): 'int', ('env', ('g', 'cnt')): 'int'}
            return sp
        e.loop_for = lambda f, pc: spec()
        self.initial(st, self.p); self.initial(st, self.q)
        e.cand_timeout = 30000
        self.given = [Ptr(z3.simplify(self.B + self.p), 0), Ptr(z3.simplify(self.B + self.q), 0)]
        res = e.run_function(st, self.fn, self.given)
        for s, r in res:
            if isinstance(r, tuple):
                self.on_exit(s, r[1])
                continue
            if not isinstance(r, Ptr):
                e.oblige(s, self.P + 'a block is returned', False, self.fn)
                continue
            e.oblige(s, self.P + 'the text is that of the words in order, joined by single spaces', z3.And(z3.Select(s.heap[TXT], oi(r.obj)) == FINAL, bv(r.off, 64) == 0), self.fn + ' exit')
            e.oblige(s, self.P + 'the text is in a new block', z3.And(oi(r.obj) > z3.Int('top0'), z3.Select(s.heap[ALIVE], oi(r.obj))), self.fn + ' exit')
            k = self.kap
            for key in self.keys(s) + [self.K['next'], self.K['prev']]:
                if key in self.pre or key in st.heap:
                    e.oblige(s, self.P + 'the words are left as they are: %s' % (key,), z3.Implies(z3.And(0 <= k, k < self.n), z3.Select(s.heap[key], self.B + k) == z3.Select(self.e.heap_arr(st, key), self.B + k)), self.fn + ' exit')
        e.oblige(State(), 'vacuity: %s can finish' % self.fn, any(not isinstance(r, tuple) for s, r in res), self.fn)
        e.inlined.add(self.fn)
        self.spec = LoopSpec(None, None)
        self.spec.frame, self.spec.live_out = {}, set()
        return e

def passes(pl):
    return {'build_string_from_nodes': [lambda: Build(pl)], 'pair_off_indicator_suffixes': [(lambda k=k: Pair(pl, k)) for k in Pair.cases], 'handle_indicators': [(lambda k=k: Indic(pl, k)) for k in Indic.cases], 'handle_lohu': [lambda: Lohu(pl)], 'handle_zo': [(lambda k=k: Zo(pl, k)) for k in Zo.cases], 'handle_bahe': [lambda: Bahe(pl)], 'handle_bu': [(lambda k=k: Bu(pl, k)) for k in Bu.cases]}
