"""Ghost contents of C strings (sequences of atoms) and contracts of the string functions over them."""
import os, z3
from engine.gotovc import *
from engine import tree
from checks.scan import B32, B64

class Texts:
    """atoms: ('lit', bytes), ('sym', name), ('byte', term), ('pre', name, n): the first n bytes of the string called name.
    Where a string function leaves its result in a buffer, the buffer's ghost text is set; a byte written at the end extends it."""
    def __init__(self, e, bound=1 << 20):
        self.e, self.lens, self.bound = e, {}, bound
        e.text_write = self.text_write
        e.contracts.update(strlen=self.strlen, strcpy=self.strcpy, strcat=self.strcat, strncpy=self.strncpy, malloc=self.malloc, Malloc=self.malloc, strcmp=self.strcmp)
    def source(self, st, name, nonempty=False):
        """a string of unknown contents"""
        n = z3.BitVec('len.' + name, 64)
        st.assume(z3.ULT(n, self.bound))
        self.lens[name] = n
        o = self.e.new_obj(st, 'string ' + name, n + 1, const=True)
        st.ghost[('text', o)] = (('sym', name),)
        B = z3.Array('bytes.' + name, z3.BitVecSort(64), z3.BitVecSort(8))
        self.e._setcell(st, st.mem[o], 8, Cells(8, None, {}, B))
        st.assume(z3.Select(B, n) == 0)
        return Ptr(o, 0)
    def norm(self, ps):
        out = []
        for a in ps:
            if a[0] == 'lit' and not a[1]:
                continue
            if a[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + a[1])
                continue
            if a[0] == 'byte' and z3.is_expr(a[1]):
                b = z3.simplify(a[1])
                if z3.is_bv_value(b):
                    out.append(('lit', bytes([b.as_long()])))
                    continue
                a = ('byte', b)
            out.append(a)
        return tuple(out)
    def text(self, st, p):
        e = self.e
        p = e.fix_off(st, e._resolve(st, p))
        if isinstance(p.obj, int) and p.obj:
            t = st.ghost.get(('text', p.obj))
            o = e.obj(st, p.obj)
            if t is None and o.const and isinstance(p.off, int):
                b = b''
                while True:
                    v = e.read(st, Ptr(p.obj, p.off + len(b)), T('int', 8, False))
                    v = v if isinstance(v, int) else z3.simplify(v).as_long()
                    if not v & 255:
                        return (('lit', b),) if b else ()
                    b += bytes([v & 255])
            if t is not None and isinstance(p.off, int) and p.off == 0 and not st.ghost.get(('open', p.obj)):
                return t
        return None
    def need(self, st, p):
        t = self.text(st, p)
        if t is None:
            raise Unsupported('string of unknown contents at ' + self.e.where(st))
        return t
    def length(self, ps):
        n = B64(0)
        for a in ps:
            n = n + (B64(len(a[1])) if a[0] == 'lit' else B64(1) if a[0] == 'byte' else a[2] if a[0] == 'pre' else self.lens[a[1]])
        return z3.simplify(n)
    def room(self, st, p, n):
        e = self.e
        if not isinstance(p.obj, int) or p.obj == 0 or e.obj(st, p.obj).const:
            e.oblige(st, 'strings are copied to writable memory', False, e.where(st))
            return
        o = e.obj(st, p.obj)
        e.oblige(st, 'the string fits its destination', z3.And(z3.ULE(bv(p.off, 64), bv(o.size, 64)), z3.UGE(bv(o.size, 64) - bv(p.off, 64), n)), e.where(st))
    def put(self, st, p, t, open_=False):
        if not (isinstance(p.off, int) and p.off == 0):
            raise Unsupported('string written inside a buffer')
        st.ghost[('text', p.obj)] = self.norm(t)
        st.ghost[('open', p.obj)] = open_
    def strlen(self, e, st, a, ts):
        return [(st, self.length(self.need(st, a[0])))]
    def strcpy(self, e, st, a, ts):
        d = e.fix_off(st, e._resolve(st, a[0]))
        t = self.need(st, a[1])
        self.room(st, d, self.length(t) + 1)
        self.put(st, d, t)
        return [(st, a[0])]
    def strcat(self, e, st, a, ts):
        d = e.fix_off(st, e._resolve(st, a[0]))
        t = self.need(st, d) + self.need(st, a[1])
        self.room(st, d, self.length(t) + 1)
        self.put(st, d, t)
        return [(st, a[0])]
    def strncpy(self, e, st, a, ts):
        d = e.fix_off(st, e._resolve(st, a[0]))
        t = self.need(st, a[1])
        n = bv(a[2], 64)
        self.room(st, d, n)
        if len(t) != 1 or t[0][0] != 'sym':
            raise Unsupported('strncpy of a composed string')
        e.oblige(st, 'a prefix is copied', z3.ULE(n, self.length(t)), e.where(st))
        self.put(st, d, (('pre', t[0][1], z3.simplify(n)),), True)
        return [(st, a[0])]
    def malloc(self, e, st, a, ts):
        return [(st, Ptr(e.new_obj(st, 'heap', bv(a[0], 64)), 0))]
    def text_write(self, st, p, v):
        e = self.e
        k = ('text', p.obj)
        t = st.ghost[k]
        if e.check(list(st.pc) + [bv(p.off, 64) != self.length(t)], 5000)[0] == z3.unsat:
            b = bv(v, 8)
            zero = z3.is_bv_value(z3.simplify(b)) and z3.simplify(b).as_long() == 0
            if zero:
                st.ghost[('open', p.obj)] = False
            else:
                st.ghost[k] = self.norm(t + (('byte', b),))
                st.ghost[('open', p.obj)] = True
            return
        st.ghost.pop(k)
    def strcmp(self, e, st, a, ts):
        raise Unsupported('comparison of strings at ' + e.where(st))
    def same(self, x, y):
        """are two texts the same sequence of atoms (as a condition)"""
        if x is None or y is None or len(x) != len(y):
            return z3.BoolVal(False)
        cs = []
        for a, b in zip(self.norm(x), self.norm(y)):
            if a[0] != b[0]:
                return z3.BoolVal(False)
            if a[0] == 'pre':
                cs += [z3.BoolVal(a[1] == b[1]), a[2] == b[2]]
            elif a[0] == 'byte':
                cs.append(a[1] == b[1])
            else:
                cs.append(z3.BoolVal(a[1] == b[1]))
        return z3.And(*cs) if cs else z3.BoolVal(True)

def ctype(e):
    """<ctype.h> in the C locale: the table is asked from the C library"""
    d = tree.scratch()
    out = os.path.join(d, 'ctype.out')
    if not os.path.exists(out):
        c = os.path.join(d, 'ctype%d.c' % os.getpid())       # parts of a proof run in parallel
        with open(c, 'w') as f:
            f.write('#include <stdio.h>\n#include <ctype.h>\nint main(){for(int i=-128;i<256;i++)printf("%d %d %d\\n",(*__ctype_b_loc())[i],(*__ctype_tolower_loc())[i],(*__ctype_toupper_loc())[i]);return 0;}\n')
        tree.sh(['gcc', '-w', c, '-o', c + '.x'])
        with open(c + '.out', 'wb') as f:
            f.write(tree.sh([c + '.x']))
        os.replace(c + '.out', out)
    rows = [[int(x) for x in l.split()] for l in open(out)]
    for k, (nm, w) in enumerate((('b', 16), ('tolower', 32), ('toupper', 32))):
        def loc(eng, st, a, ts, k=k, nm=nm, w=w):
            key = '#ctype.' + nm
            o = eng.gobj.get(key)
            if o is None:
                o = eng.gobj[key] = next(eng.oid)
                eng.names[o] = 'ctype table'
                eng.gobj[key + 'p'] = next(eng.oid)
                eng.names[eng.gobj[key + 'p']] = 'ctype table pointer'
            if o not in st.mem:
                m = MObj(o, 'ctype table', 384 * w // 8, True)
                m.cells[w] = Cells(w, {i * w // 8: rows[i][k] & ((1 << w) - 1) for i in range(384)})
                st.mem[o] = m
                q = eng.gobj[key + 'p']
                m = MObj(q, 'ctype table pointer', 8, True)
                m.cells['p'] = Cells('p', None, {0: Ptr(o, 128 * w // 8)})
                st.mem[q] = m
            return [(st, Ptr(eng.gobj[key + 'p'], 0))]
        e.contracts['__ctype_%s_loc' % nm] = loc
