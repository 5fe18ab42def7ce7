"""gotovc - a small deductive verifier for C over CBMC goto programs.

The goto program is produced by goto-cc from the *current* text of /repo on every
run; this module never sees anything hand-written in place of the code.  It
symbolically executes goto functions between cut points (function entry, loop
heads, function exit), using

  * contracts for callees that have one (Contract),
  * inlining for callees that have none,
  * loop invariants (fixed ones and Houdini candidates) at loop heads; the frame
    of each loop (what has to be forgotten at the head) is discovered by
    iteration, never assumed,

and discharges every obligation with z3 (cvc5 as second back end).
Machine integers are exact bit vectors.  Memory is typed: a pointer is (object,
byte offset) and each object has one array per access class; accesses through
different classes to the same bytes are assumed not to interfere (no type
punning) - this is reported as an assumption.
"""
import json, os, subprocess, time, itertools, sys
import z3

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass

class ProofFailed(Exception):
    pass

# ----------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'w', 'signed', 'to', 'n', 'fields', 'name', '_size')
    def __init__(self, k, w=0, signed=False, to=None, n=None, fields=None, name=None):
        self.k, self.w, self.signed, self.to, self.n, self.fields, self.name = k, w, signed, to, n, fields, name
        self._size = None
    def __repr__(self):
        return self.name or '%s%s' % (self.k, self.w or '')

class Program:
    """Functions and symbols of a linked goto binary."""
    def __init__(self, gb, need_values=True):
        self.gb = gb
        fj = json.loads(subprocess.run(['goto-instrument', '--show-goto-functions', '--json-ui', gb],
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout)
        self.raw = {}
        for x in fj:
            if 'functions' in x:
                for f in x['functions']:
                    self.raw[f['name']] = f
        sj = json.loads(subprocess.run(['goto-instrument', '--show-symbol-table', '--json-ui', gb],
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout)
        self.sym = {}
        for x in sj:
            if 'symbolTable' in x:
                self.sym = x['symbolTable']
        for s in self.sym.values():
            s.pop('prettyValue', None)
        self._types = {}
        self._tcache = {}
        self.funcs = {}
        for n, f in self.raw.items():
            if f.get('isBodyAvailable') and f.get('instructions'):
                self.funcs[n] = Func(self, n, f)
        self._strings = {}

    # ---- types
    def typ(self, j):
        key = id(j)
        t = self._tcache.get(key)
        if t is None:
            t = self._typ(j)
            self._tcache[key] = t
            self._tcache[('keep', key)] = j
        return t

    def _tag(self, tagid):
        t = self._types.get(tagid)
        if t is None:
            t = T('struct')
            self._types[tagid] = t
            real = self._typ(self.sym[tagid]['type'])
            t.k, t.w, t.signed, t.to, t.n, t.fields, t.name = real.k, real.w, real.signed, real.to, real.n, real.fields, tagid
        return t

    def _typ(self, j):
        i = j['id']
        ns = j.get('namedSub', {})
        if i in ('signedbv', 'unsignedbv'):
            return T('int', int(ns['width']['id']), i == 'signedbv')
        if i == 'bool':
            return T('bool', 1)
        if i == 'c_bool':
            return T('int', int(ns['width']['id']), False)
        if i == 'pointer':
            return T('ptr', 64, to=j['sub'][0])
        if i in ('struct_tag', 'union_tag', 'c_enum_tag'):
            return self._tag(ns['identifier']['id'])
        if i in ('struct', 'union'):
            comps = ns['components'].get('sub', []) if 'components' in ns else []
            fields = []
            off = 0
            packed = 'packed' in ns or '#packed' in ns or 'C_packed' in ns
            for c in comps:
                cn = c['namedSub']
                ct = self.typ(cn['type'])
                nm = cn['name']['id']
                # padding members are explicit in goto programs
                if i == 'struct':
                    fields.append((nm, ct, off))
                    off += self.sizeof(ct)
                else:
                    fields.append((nm, ct, 0))
            t = T(i, fields=fields)
            if i == 'union':
                t._size = max([self.sizeof(f[1]) for f in fields] or [0])
            else:
                t._size = off
            return t
        if i == 'array':
            sz = ns['size']
            et = self.typ(j['sub'][0])
            n = None
            if sz['id'] == 'constant':
                n = int(sz['namedSub']['value']['id'], 16)
            return T('array', to=et, n=n)
        if i == 'c_enum':
            return self.typ(j['sub'][0]) if j.get('sub') else T('int', 32, False)
        if i in ('empty', 'code', 'nil', 'incomplete_struct', 'constructor'):
            return T(i)
        if i == 'floatbv':
            return T('float', int(ns['width']['id']))
        if i == 'c_bit_field':
            b = self.typ(j['sub'][0])
            return T('int', int(ns['width']['id']), b.signed)
        if i in ('c_enum', 'incomplete_c_enum'):
            return T('int', 32, False)
        raise Unsupported('type ' + i)

    def sizeof(self, t):
        if t._size is not None:
            return t._size
        if t.k == 'int':
            s = (t.w + 7) // 8
        elif t.k == 'bool':
            s = 1
        elif t.k in ('ptr',):
            s = 8
        elif t.k == 'float':
            s = t.w // 8
        elif t.k == 'array':
            s = self.sizeof(t.to) * (t.n or 0)
        elif t.k == 'struct':
            s = sum(self.sizeof(f[1]) for f in t.fields)
        elif t.k == 'union':
            s = max([self.sizeof(f[1]) for f in t.fields] or [0])
        elif t.k in ('empty', 'code'):
            s = 1
        else:
            raise Unsupported('sizeof ' + t.k)
        t._size = s
        return s

    def field(self, t, name):
        for f in t.fields:
            if f[0] == name:
                return f[1], f[2]
        raise Unsupported('no field %s in %s' % (name, t))

    def leaves(self, t, off=0):
        """(offset, scalar type) of all scalar leaves of an aggregate"""
        if t.k in ('int', 'ptr', 'bool', 'float'):
            yield off, t
        elif t.k == 'array':
            es = self.sizeof(t.to)
            for i in range(t.n or 0):
                yield from self.leaves(t.to, off + i * es)
        elif t.k == 'struct':
            for nm, ft, fo in t.fields:
                if not str(nm).startswith('$pad'):
                    yield from self.leaves(ft, off + fo)
        elif t.k == 'union':
            seen = set()
            for nm, ft, fo in t.fields:
                for o, lt in self.leaves(ft, off + fo):
                    key = (o, cls_of(lt))
                    if key not in seen:
                        seen.add(key)
                        yield o, lt

def cls_of(t):
    if t.k == 'ptr':
        return 'p'
    if t.k in ('int', 'float'):
        return 8 if t.w <= 8 else 16 if t.w <= 16 else 32 if t.w <= 32 else 64
    if t.k == 'bool':
        return 8
    raise Unsupported('class of %s' % t.k)

class Func:
    def __init__(self, prog, name, raw):
        self.prog, self.name, self.raw = prog, name, raw
        self.ins = raw['instructions']
        self.params = raw['parameterIdentifiers']
        loc2i = {x['locationNumber']: n for n, x in enumerate(self.ins)}
        self.targets = [[loc2i[t] for t in x.get('targets', [])] for x in self.ins]
        self.heads = sorted({t for n, ts in enumerate(self.targets) for t in ts
                             if t <= n and self.ins[n]['instructionId'] == 'GOTO'})
        self._code = None
        self.addr_taken = set()
        for x in self.ins:
            for k in ('code', 'guard'):
                if k in x:
                    self._scan_addr(x[k])

    def _scan_addr(self, e):
        if e['id'] == 'address_of':
            s = e['sub'][0]
            while s['id'] in ('member', 'index'):
                s = s['sub'][0]
            if s['id'] == 'symbol':
                self.addr_taken.add(s['namedSub']['identifier']['id'])
        for s in e.get('sub', []):
            self._scan_addr(s)

    def line(self, pc):
        sl = self.ins[pc].get('sourceLocation', {})
        return sl.get('line', '?')

    def loop_body(self, head):
        """natural loop instruction indices for back edges to head"""
        body = {head}
        preds = {}
        for n, x in enumerate(self.ins):
            succ = self.succs(n)
            for s in succ:
                preds.setdefault(s, []).append(n)
        work = [n for n, ts in enumerate(self.targets) if head in ts and n >= head and self.ins[n]['instructionId'] == 'GOTO']
        while work:
            n = work.pop()
            if n in body:
                continue
            body.add(n)
            work += preds.get(n, [])
        return body

    def succs(self, n):
        x = self.ins[n]
        k = x['instructionId']
        if k == 'GOTO':
            g = x.get('guard')
            if g is None or (g['id'] == 'constant' and g['namedSub']['value']['id'] == 'true'):
                return list(self.targets[n])
            return list(self.targets[n]) + [n + 1]
        if k == 'END_FUNCTION':
            return []
        return [n + 1]

# ----------------------------------------------------------------- values
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

NULL = Ptr(0, 0)

def is_c(v):
    return isinstance(v, (int, bool))

def norm(v, t):
    """concrete int normalised to type t"""
    m = (1 << t.w) - 1
    v &= m
    if t.signed and v >> (t.w - 1):
        v -= 1 << t.w
    return v

def bv(v, w):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v

def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v

def simp(v):
    """simplify a z3 value; return a python constant when possible"""
    if is_c(v) or isinstance(v, Ptr):
        return v
    s = z3.simplify(v)
    if z3.is_bv_value(s):
        return s
    return s

def concretize(v, t):
    """turn literal z3 values into python ints"""
    if is_c(v) or isinstance(v, Ptr):
        return v
    if z3.is_bv_value(v):
        return norm(v.as_long(), t)
    return v

def b_not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)

def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)

def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def b_imp(a, b):
    return b_or(b_not(a), b)

def ieq(a, b, w=64):
    """equality of two BV/int values"""
    if is_c(a) and is_c(b):
        return (int(a) - int(b)) % (1 << w) == 0
    return bv(a, w) == bv(b, w)

def oeq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return oi(a) == oi(b)

def oi(a):
    return z3.IntVal(a) if isinstance(a, int) else a

def peq(a, b):
    """pointer equality (object and offset)"""
    return b_and(oeq(a.obj, b.obj), ieq(a.off, b.off))

# ----------------------------------------------------------------- memory
class Cells:
    """contents of one access class of one object (persistent by copying)"""
    __slots__ = ('w', 'base', 'd', 'arr')
    # base: None (uninitialised: fresh on read) | dict (constant table) | z3 array | (z3 array, z3 array)
    def __init__(self, w, base=None, d=None, arr=None):
        self.w, self.base, self.d, self.arr = w, base, d or {}, arr

    def copy(self):
        return Cells(self.w, self.base, dict(self.d), self.arr)

class MObj:
    __slots__ = ('oid', 'name', 'size', 'cells', 'const', 'mark')
    def __init__(self, oid, name, size, const=False):
        self.oid, self.name, self.size, self.const = oid, name, size, const
        self.cells = {}

_fresh = itertools.count()

def fresh_name(p):
    return '%s!%d' % (p, next(_fresh))

def fresh_bv(p, w):
    return z3.BitVec(fresh_name(p), w)

def fresh_ptr(p):
    n = fresh_name(p)
    return Ptr(z3.Int(n + '.o'), z3.BitVec(n + '.f', 64))

def fresh_val(p, t):
    if t.k == 'ptr':
        return fresh_ptr(p)
    if t.k == 'bool':
        return z3.Bool(fresh_name(p))
    return fresh_bv(p, t.w if t.k == 'int' else t.w)

BV64 = z3.BitVecSort(64)

def arr_fresh(p, w):
    if w == 'p':
        n = fresh_name(p)
        return (z3.Array(n + '.o', BV64, z3.IntSort()), z3.Array(n + '.f', BV64, BV64))
    return z3.Array(fresh_name(p), BV64, z3.BitVecSort(w))

_tv = {}
def term_vars(e):
    """names of the free constants of a term (cached)"""
    k = e.get_id()
    r = _tv.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    seen = set()
    work = [e]
    while work:
        x = work.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _tv.get(i)
        if c is not None and c[0].eq(x):
            out |= c[1]
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                work.extend(x.children())
        elif z3.is_quantifier(x):
            work.append(x.body())
    out = frozenset(out)
    _tv[k] = (e, out)
    return out

def conjuncts(fs):
    out = []
    for f in fs:
        if z3.is_and(f):
            out += conjuncts(f.children())
        elif not z3.is_true(f):
            out.append(f)
    return out

class MuxTable:
    """constant table {index: int} as a shared multiplexer tree over the index bits
    (absent entries are `default`)"""
    def __init__(self, rows, iw, vw, default=0):
        self.rows = {k: v for k, v in rows.items()}
        self.iw, self.vw, self.default = iw, vw, default
        m = max(list(self.rows) + [1])
        self.bits = max(1, m.bit_length())
        self.nodes = {}          # (level, tuple key) -> node id
        n = 1 << self.bits
        lev = [('v', norm_u(self.rows.get(i, default), vw)) for i in range(n)]
        self.levels = []
        b = 0
        uniq = {}
        while len(lev) > 1:
            nxt = []
            for i in range(0, len(lev), 2):
                x, y = lev[i], lev[i + 1]
                if x == y:
                    nxt.append(x)
                else:
                    k = (b, x, y)
                    if k not in uniq:
                        uniq[k] = ('n', len(uniq))
                    nxt.append(uniq[k])
            lev = nxt
            b += 1
        self.order = [(v, k) for k, v in sorted(uniq.items(), key=lambda kv: kv[1][1])]
        self.root = lev[0]
        self.memo = {}
    def __call__(self, idx):
        if not isinstance(idx, int) and z3.is_bv_value(idx):
            idx = idx.as_long()
        if isinstance(idx, int):
            return z3.BitVecVal(self.rows.get(idx, self.default), self.vw)
        r = self.memo.get(idx.get_id())
        if r is not None and r[0].eq(idx):
            return r[1]
        bit = [z3.Extract(i, i, idx) == 1 for i in range(self.bits)]
        val = {}
        def get(x):
            return z3.BitVecVal(x[1], self.vw) if x[0] == 'v' else val[x[1]]
        for (tag, n), (b, x, y) in self.order:
            val[n] = z3.If(bit[b], get(y), get(x))
        r = get(self.root)
        if self.bits < self.iw:
            r = z3.If(z3.Extract(self.iw - 1, self.bits, idx) == 0, r, z3.BitVecVal(self.default, self.vw))
        self.memo[idx.get_id()] = (idx, r)
        return r

def norm_u(v, w):
    return int(v) & ((1 << w) - 1)

class State:
    """symbolic state; env/mem/heap are copied on fork (shallow)"""
    __slots__ = ('env', 'mem', 'heap', 'pc', 'ghost', 'frames', 'trace', 'nexto', 'model', 'model2')
    def __init__(self):
        self.env, self.mem, self.heap, self.pc = {}, {}, {}, []
        self.ghost, self.frames, self.trace = {}, [], []
        self.nexto = None
        self.model = None       # (length of pc it satisfies, model): a cached witness
        self.model2 = None

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.frames = list(self.frames)
        s.trace = list(self.trace)
        s.nexto = self.nexto
        s.model = self.model
        return s

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(f)

# ----------------------------------------------------------------- engine
class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond

class ForkDomain(Exception):
    def __init__(self, var, dom):
        self.var, self.dom = var, dom

class Obligation:
    __slots__ = ('name', 'where', 'status', 'ms', 'backend', 'model', 'detail')
    def __init__(self, name, where, status, ms=0, backend='simplify', model=None, detail=None):
        self.name, self.where, self.status, self.ms, self.backend, self.model, self.detail = name, where, status, ms, backend, model, detail

class LoopSpec:
    """inv(eng, st, entry) -> [(name, formula)] must hold; cands: Houdini candidates;
    body_only: explore, never continue; on_back(eng, st, head_st): extra obligations."""
    def __init__(self, inv=None, cands=None, on_head=None, on_back=None, step=None, name=None, split=None, live=None, frame=None):
        self.inv, self.cands, self.on_head, self.on_back = inv, cands, on_head, on_back
        self.split = split    # split(eng, head_state) -> head states covering it (case distinction)
        self.frame = frame if frame is not None else {}   # known part of the loop's frame; the final frame is left here
        self.live = live      # names of the candidates to start from (None: all)
        self.step = step      # step(eng, back_state, head_state, entry): ghost update at the back edge
        self.name = name

def G(st, n):
    return st.env[('g', n)]

def setG(st, n, v):
    st.env[('g', n)] = v

class Engine:
    def __init__(self, prog, safety=True, timeout=20000, prune=True, unroll=400):
        self.prog = prog
        self.safety, self.timeout, self.prune, self.unroll = safety, timeout, prune, unroll
        self.contracts = {}
        self.loops = {}          # (func, ordinal) -> LoopSpec ; or callable via loop_for
        self.loop_for = None
        self.heap_objs = set()   # concrete ids that live in the heap arrays
        self.heap_globals = set()
        self.oid = itertools.count(1)
        self.names = {}          # oid -> name
        self.gobj = {}           # global symbol -> oid
        self.init_mem = {}       # oid -> MObj initial contents
        self.domains = {}        # z3 obj var name -> tuple of concrete ids
        self.fid = itertools.count(1)
        self.obls = []
        self.guards = []
        self.cexpr = {}
        self.recording = True
        self.deferred = None     # while a loop frame is being discovered: obligations to discharge later
        self.collect = None
        self.stats = dict(z3=0.0, cvc5=0.0, checks=0, prunes=0, prune_t=0.0)
        self.lost = set()        # Houdini candidates that had to be dropped
        self.head_hook = None    # called at every loop head (concrete simulation)
        self.inlined = set()
        self.used_models = set()
        self.assert_as = 'oblige'   # 'oblige' | 'assume' | 'stop'
        self.strobj = {}
        self.fail_fast = False
        self.lit_zero_init = True   # globals start with their static initialiser (False: arbitrary)
        self.havoc_globals = True   # non-const globals have arbitrary contents at entry
        self.const_globals = set()
        self.max_paths = 20000
        self.verbose = False
        self.cand_timeout = 5000
        self.skip = None         # name -> the obligation is discharged elsewhere
        self.read_hook = {}      # object -> f(st, pointer, type): contents given by an assumption (None: ordinary contents)
        self.text_write = None   # (st, p, byte): keeps the ghost text of an object in step with a byte written to it
        self.near = True         # try the hypotheses that share a symbol with the goal first
        self.view = None         # f(st, pointer, class): a field of a heap object is read (obligations about unions)
        self.heap_byte = None    # f(st, pointer, byte) -> True if a byte written to a heap object is dealt with (ghost texts)
        self.interior = None     # f(object, offset) -> the object that stands for a pointer into a heap structure
        self.pobj = {}           # object -> the one object that all pointers stored in it refer to (object invariant)

    # ---------------------------------------------------------- solver
    def check(self, hyps, timeout=None):
        """satisfiability of a list of formulas"""
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*[zb(h) for h in hyps])
        t = time.time()
        r = s.check()
        self.stats['z3'] += time.time() - t
        self.stats['checks'] += 1
        return r, s

    def feasible(self, st, extra=()):
        for e in list(extra):
            if isinstance(e, bool) and not e:
                return False
        if not self.prune:
            return True
        extra = [e for e in extra if not isinstance(e, bool)]
        m = st.model
        if m is not None and m[0] <= len(st.pc):
            try:
                if all(z3.is_true(m[1].eval(zb(h), model_completion=True)) for h in list(st.pc[m[0]:]) + extra):
                    return True
            except z3.Z3Exception:
                pass
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*[zb(h) for h in st.pc])
        s.add(*extra)
        r = s.check()
        self.stats['prunes'] += 1
        self.stats['prune_t'] += time.time() - t
        if r == z3.sat:
            st.model2 = (len(st.pc), s.model(), extra)
        return r != z3.unsat

    def oblige(self, st, name, cond, where=''):
        """record and discharge: st.pc & guards => cond"""
        if self.skip is not None and self.skip(name):
            return True          # an obligation left to another property's check
        if self.deferred is not None:
            if cond is True:
                self._rec(Obligation(name, where, 'proved'))
                return True
            s2 = State()
            s2.pc = list(st.pc) + [zb(g) for g in self.guards]
            self.deferred.append((s2, name, cond, where))
            return True
        if isinstance(cond, bool):
            if cond:
                self._rec(Obligation(name, where, 'proved'))
                return True
        else:
            c = z3.simplify(cond)
            if z3.is_true(c):
                self._rec(Obligation(name, where, 'proved'))
                return True
        t = time.time()
        hyps = conjuncts([zb(h) for h in st.pc] + [zb(g) for g in self.guards])
        if self.near:
            gv = term_vars(zb(cond))
            near = [h for h in hyps if term_vars(h) & gv]
        if self.near and len(near) < len(hyps) - 3:
            # weaker hypotheses first: those that share a symbol with the goal
            r, s = self.check(near + [z3.Not(zb(cond))], 3000)
            if r == z3.unsat:
                self._rec(Obligation(name, where, 'proved', int((time.time() - t) * 1000), 'z3'))
                return True
        r, s = self.check(hyps + [z3.Not(zb(cond))])
        ms = int((time.time() - t) * 1000)
        if r == z3.unsat:
            self._rec(Obligation(name, where, 'proved', ms, 'z3'))
            return True
        if r == z3.unknown:
            r2 = self.cvc5(s)
            if r2 == 'unsat':
                self._rec(Obligation(name, where, 'proved', int((time.time() - t) * 1000), 'cvc5'))
                return True
            self._rec(Obligation(name, where, 'unknown', int((time.time() - t) * 1000), 'z3+cvc5'))
            return False
        m = s.model()
        self._rec(Obligation(name, where, 'failed', ms, 'z3', model=m, detail=str(m)[:2000]))
        return False

    def oblige_all(self, st, goals, where=''):
        """several obligations in one state: discharged together when possible, one by one otherwise"""
        goals = [(n, c) for n, c in goals]
        real = [(n, c) for n, c in goals if not isinstance(c, bool)]
        if self.deferred is None and len(real) > 1 and len(real) == len(goals):
            t = time.time()
            r, s = self.check(list(st.pc) + [zb(g) for g in self.guards] + [z3.Not(z3.And(*[c for n, c in real]))])
            if r == z3.unsat:
                ms = int((time.time() - t) * 1000 / len(real))
                for n, c in real:
                    self._rec(Obligation(n, where, 'proved', ms, 'z3'))
                return True
        return all([self.oblige(st, n, c, where) for n, c in goals])

    def cvc5(self, s):
        t = time.time()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % self.timeout, '-'], input='(set-logic ALL)\n' + s.to_smt2(),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=self.timeout / 1000 + 10)
            out = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        except Exception:
            out = 'unknown'
        self.stats['cvc5'] += time.time() - t
        return out

    def _rec(self, o):
        if self.recording:
            self.obls.append(o)

    # ---------------------------------------------------------- objects
    def new_obj(self, st, name, size, const=False):
        oid = next(self.oid)
        self.names[oid] = name
        st.mem[oid] = MObj(oid, name, size, const)
        return oid

    def global_obj(self, st, sym):
        oid = self.gobj.get(sym)
        if oid is None:
            oid = next(self.oid)
            self.gobj[sym] = oid
            self.names[oid] = sym
            if sym in self.heap_globals:
                self.heap_objs.add(oid)
        if oid in self.heap_objs:
            return oid
        if oid not in st.mem:
            o = self.init_mem.get(oid)
            if o is None:
                o = self._init_global(sym, oid)
                self.init_mem[oid] = o
            st.mem[oid] = o
        return oid

    def _init_global(self, sym, oid):
        s = self.prog.sym.get(sym)
        if s is None:
            raise Unsupported('unknown global ' + sym)
        t = self.prog.typ(s['type'])
        size = self.prog.sizeof(t)
        if t.k == 'array' and not t.n:
            size = None
        const = self.is_const_global(sym)
        o = MObj(oid, sym, size, const)
        if const:
            v = s.get('value')
            vals = {}
            if v and v.get('id') not in (None, 'nil', ''):
                self.flatten(v, t, 0, vals)
            elif size is None:
                return o
            for c in (8, 16, 32, 64, 'p'):
                o.cells[c] = Cells(c, base=vals.get(c, {}))
        return o

    def is_const_global(self, sym):
        if sym in self.const_globals:
            return True
        s = self.prog.sym.get(sym, {})
        t = s.get('type', {})
        q = json.dumps(t)[:400]
        if '#constant' in t.get('namedSub', {}) or 'C_constant' in t.get('namedSub', {}):
            return True
        if t.get('id') == 'array':
            e = t['sub'][0]
            if '#constant' in e.get('namedSub', {}) or 'C_constant' in e.get('namedSub', {}):
                return True
        return False

    def flatten(self, v, t, off, out):
        i = v['id']
        sub = v.get('sub', [])
        if i in ('array',):
            es = self.prog.sizeof(t.to)
            for n, x in enumerate(sub):
                self.flatten(x, t.to, off + n * es, out)
        elif i == 'array_of':
            es = self.prog.sizeof(t.to)
            for n in range(t.n):
                self.flatten(sub[0], t.to, off + n * es, out)
        elif i == 'struct':
            for (nm, ft, fo), x in zip(t.fields, sub):
                self.flatten(x, ft, off + fo, out)
        elif i == 'union':
            nm = v['namedSub']['component_name']['id']
            ft, fo = self.prog.field(t, nm)
            self.flatten(sub[0], ft, off + fo, out)
        elif i == 'string_constant' and t.k == 'array':
            s = v['namedSub']['value']['id'].encode('latin-1')
            d = out.setdefault(8, {})
            for n, ch in enumerate(s):
                d[off + n] = norm(ch, t.to)
        else:
            st = State()
            st.frames = [(0, None)]
            val = self.ev(v)(st)
            if isinstance(val, bool):
                val = int(val)
            out.setdefault(cls_of(t), {})[off] = val

    def string_obj(self, s):
        oid = self.strobj.get(s)
        if oid is None:
            oid = next(self.oid)
            self.strobj[s] = oid
            self.names[oid] = 'str:%r' % s[:20]
            o = MObj(oid, 'str', len(s) + 1, True)
            o.cells[8] = Cells(8, base={i: norm(c, T('int', 8, True)) for i, c in enumerate(s)})
            self.init_mem[oid] = o
        return oid

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.init_mem.get(oid)
            if o is None:
                raise Unsupported('no object %s (%s)' % (oid, self.names.get(oid)))
            st.mem[oid] = o
        return o

    # ---------------------------------------------------------- memory access
    def _resolve(self, st, p):
        """pointer with symbolic object whose domain is a set of concrete ids -> fork"""
        o = p.obj
        if isinstance(o, int):
            return p
        o = z3.simplify(o)
        if z3.is_int_value(o):
            return Ptr(o.as_long(), p.off)
        d = st.ghost.get('decided_obj', {}).get(str(o))
        if d is not None:
            return Ptr(d, p.off)
        dom = self.domains.get(str(o))
        if dom is not None and any(k and k not in self.heap_objs for k in dom):
            raise ForkDomain(o, dom)
        return Ptr(o, p.off)

    def _mat(self, o, c, t):
        """z3 array for class c of object (materialised); returns Cells copy with arr"""
        ce = o.cells.get(c)
        if ce is None:
            ce = Cells(c)
        if ce.arr is not None:
            return ce
        base = ce.base
        if base is None:
            a = arr_fresh(o.name, c)
        elif isinstance(base, dict):
            if c == 'p':
                a = (z3.K(BV64, z3.IntVal(0)), z3.K(BV64, z3.BitVecVal(0, 64)))
                for k in sorted(base):
                    v = base[k]
                    a = (z3.Store(a[0], z3.BitVecVal(k, 64), oi(v.obj)), z3.Store(a[1], z3.BitVecVal(k, 64), bv(v.off, 64)))
            else:
                a = z3.K(BV64, z3.BitVecVal(0, c))
                for k in sorted(base):
                    if base[k] != 0 or not isinstance(base[k], int):
                        a = z3.Store(a, z3.BitVecVal(k, 64), bv(base[k], c))
        else:
            a = base
        for k, v in ce.d.items():
            if c == 'p':
                a = (z3.Store(a[0], z3.BitVecVal(k, 64), oi(v.obj)), z3.Store(a[1], z3.BitVecVal(k, 64), bv(v.off, 64)))
            else:
                a = z3.Store(a, z3.BitVecVal(k, 64), bv(v, c))
        n = Cells(c, None, {}, a)
        return n

    def bounds(self, st, p, o, n, what):
        if not self.safety or o.size is None:
            return
        off, size = p.off, o.size
        if isinstance(off, int) and isinstance(size, int):
            ok = 0 <= off and off + n <= size
            if ok:
                return
            self.oblige(st, 'bounds:%s:%s' % (what, o.name), False, self.where(st))
            return
        c = z3.And(z3.ULE(bv(off, 64), bv(size, 64)), z3.UGE(bv(size, 64) - bv(off, 64), bv(n, 64)))
        self.oblige(st, 'bounds:%s:%s' % (what, o.name), c, self.where(st))

    def where(self, st):
        if st.frames and len(st.frames[-1]) > 2:
            f, pc = st.frames[-1][1], st.frames[-1][2]
            return '%s:%s' % (f.name, f.line(pc))
        return ''

    def fix_off(self, st, p):
        if not isinstance(p.off, int):
            s = z3.simplify(p.off)
            if z3.is_bv_value(s):
                v = s.as_long()
                if v >> 63:
                    v -= 1 << 64
                return Ptr(p.obj, v)
            return Ptr(p.obj, s)
        return p

    def read(self, st, p, t):
        c = cls_of(t)
        p = self.fix_off(st, self._resolve(st, p))
        if not isinstance(p.obj, int) or p.obj in self.heap_objs:
            return self.heap_read(st, p, t, c)
        if p.obj == 0:
            if self.safety:
                self.oblige(st, 'null-deref', False, self.where(st))
            return fresh_val('nullread', t)
        o = self.obj(st, p.obj)
        self.bounds(st, p, o, self.prog.sizeof(t), 'read')
        if p.obj in self.read_hook:
            v = self.read_hook[p.obj](st, p, t)
            if v is not None:
                return v
        ce = o.cells.get(c)
        if isinstance(p.off, int):
            if ce is None:
                ce = Cells(c)
                self._setcell(st, o, c, ce)
                ce = st.mem[o.oid].cells[c]
            if ce.arr is None:
                v = ce.d.get(p.off)
                if v is not None:
                    return self._tv(v, t)
                if ce.base is None:
                    v = fresh_val('uninit.%s' % o.name, T('int', c) if c != 'p' else t)
                    n = ce.copy()
                    n.d[p.off] = v
                    self._setcell(st, o, c, n)
                    return self._tv(v, t)
                if isinstance(ce.base, dict):
                    v = ce.base.get(p.off)
                    if v is None:
                        v = NULL if c == 'p' else 0
                    return self._tv(v, t)
                a = ce.base
            else:
                a = ce.arr
            if c == 'p':
                ob = z3.simplify(z3.Select(a[0], z3.BitVecVal(p.off, 64)))
                return Ptr(ob.as_long() if z3.is_int_value(ob) else ob, self.fix_off(st, Ptr(0, z3.Select(a[1], z3.BitVecVal(p.off, 64)))).off)
            return self._tv(z3.simplify(z3.Select(a, z3.BitVecVal(p.off, 64))), t)
        if ce is None or ce.arr is None:
            if ce is not None and isinstance(ce.base, dict) and not ce.d and o.const and c != 'p':
                return self._tv(self.table_read(o, c, ce.base, p.off), t)
            if ce is not None and isinstance(ce.base, dict) and not ce.d and c == 'p' and self.is_const_global(o.name):
                # pointer table at a symbolic index: an unknown pointer that depends on the index only
                f = self.cexpr.get(('ptbl', o.oid))
                if f is None:
                    f = self.cexpr[('ptbl', o.oid)] = z3.Function('ptr.' + o.name, z3.BitVecSort(64), z3.IntSort())
                return Ptr(f(p.off), 0)
            ce = self._mat(o, c, t)
            self._setcell(st, o, c, ce)
        if c == 'p':
            ob = z3.simplify(z3.Select(ce.arr[0], p.off))
            return Ptr(ob.as_long() if z3.is_int_value(ob) else ob, self.fix_off(st, Ptr(0, z3.Select(ce.arr[1], p.off))).off)
        return self._tv(z3.simplify(z3.Select(ce.arr, p.off)), t)

    def table_read(self, o, c, base, off):
        key = ('tbl', o.oid, c)
        m = self.cexpr.get(key)
        if m is None:
            m = MuxTable(base, 64, c)
            self.cexpr[key] = m
        return m(off)

    def _tv(self, v, t):
        if t.k == 'bool':
            if isinstance(v, int):
                return bool(v)
            return v != 0
        if t.k == 'int':
            if isinstance(v, int):
                return norm(v, t)
            if z3.is_bv(v) and v.size() != t.w:
                v = z3.Extract(t.w - 1, 0, v)
            return concretize(v, t)
        return v

    def _setcell(self, st, o, c, ce):
        n = MObj(o.oid, o.name, o.size, o.const)
        n.cells = dict(o.cells)
        n.cells[c] = ce
        st.mem[o.oid] = n

    def write(self, st, p, t, v):
        c = cls_of(t)
        p = self.fix_off(st, self._resolve(st, p))
        if isinstance(v, bool):
            v = int(v)
        elif z3.is_expr(v) and z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, c), z3.BitVecVal(0, c))
        if not isinstance(p.obj, int) or p.obj in self.heap_objs:
            return self.heap_write(st, p, t, c, v)
        if p.obj == 0:
            if self.safety:
                self.oblige(st, 'null-deref', False, self.where(st))
            return
        o = self.obj(st, p.obj)
        self.bounds(st, p, o, self.prog.sizeof(t), 'write')
        if o.const:
            self.oblige(st, 'frame: %s is not written' % o.name, False, self.where(st))
        if c == 8 and ('text', p.obj) in st.ghost:
            if self.text_write is not None:
                self.text_write(st, p, v)
            else:
                st.ghost.pop(('text', p.obj))
        if c == 'p' and p.obj in self.pobj:
            self.oblige(st, 'object invariant: pointers stored in %s refer to %s' % (o.name, self.names.get(self.pobj[p.obj])), oi(v.obj) == self.pobj[p.obj], self.where(st))
            v = Ptr(self.pobj[p.obj], v.off)
        ce = o.cells.get(c) or Cells(c)
        if isinstance(p.off, int) and ce.arr is None:
            n = ce.copy()
            n.d[p.off] = v
            self._setcell(st, o, c, n)
            return
        ce = self._mat(o, c, t)
        off = bv(p.off, 64)
        if c == 'p':
            a = (ce.arr[0] if p.obj in self.pobj else z3.Store(ce.arr[0], off, oi(v.obj)), z3.Store(ce.arr[1], off, bv(v.off, 64)))
        else:
            a = z3.Store(ce.arr, off, bv(v, c))
        self._setcell(st, o, c, Cells(c, None, {}, a))

    # heap: symbolic objects.  class 8 is byte addressed; other classes are fields.
    def heap_arr(self, st, key):
        a = st.heap.get(key)
        if a is None:
            c = key[0]
            if c == 8:
                a = z3.Array('H8', z3.IntSort(), z3.ArraySort(BV64, z3.BitVecSort(8)))
            elif c == 'po':
                a = z3.Array('Hpo.%s' % (key[1],), z3.IntSort(), z3.IntSort())
            elif c == 'pf':
                a = z3.Array('Hpf.%s' % (key[1],), z3.IntSort(), BV64)
            else:
                a = z3.Array('H%s.%s' % key, z3.IntSort(), z3.BitVecSort(c))
            st.heap[key] = a
        return a

    def nonnull(self, st, p):
        if self.safety:
            self.oblige(st, 'null-deref', oi(p.obj) != 0, self.where(st))

    def struct_target(self, t):
        try:
            return self.prog.typ(t.to).k in ('struct', 'union')
        except Exception:
            return False

    def heap_read(self, st, p, t, c):
        self.nonnull(st, p)
        if c == 8:
            a = self.heap_arr(st, (8,))
            return self._tv(z3.simplify(z3.Select(z3.Select(a, oi(p.obj)), bv(p.off, 64))), t)
        if not isinstance(p.off, int):
            raise Unsupported('symbolic field offset in heap object at ' + self.where(st))
        if self.view is not None and self.safety:
            self.view(st, p, c)
        if c == 'p':
            ob = z3.simplify(z3.Select(self.heap_arr(st, ('po', p.off)), oi(p.obj)))
            ob = ob.as_long() if z3.is_int_value(ob) else ob
            if self.struct_target(t):
                return Ptr(ob, 0)
            return Ptr(ob, z3.simplify(z3.Select(self.heap_arr(st, ('pf', p.off)), oi(p.obj))))
        return self._tv(z3.simplify(z3.Select(self.heap_arr(st, (c, p.off)), oi(p.obj))), t)

    def heap_write(self, st, p, t, c, v):
        self.nonnull(st, p)
        if c == 8:
            if self.heap_byte is not None and self.heap_byte(st, p, v):
                return
            a = self.heap_arr(st, (8,))
            st.heap[(8,)] = z3.Store(a, oi(p.obj), z3.Store(z3.Select(a, oi(p.obj)), bv(p.off, 64), bv(v, 8)))
            return
        if not isinstance(p.off, int):
            raise Unsupported('symbolic field offset in heap write at ' + self.where(st))
        if c == 'p':
            if self.interior is not None and self.struct_target(t):
                v = self.fix_off(st, v)
                if not (isinstance(v.off, int) and v.off == 0):
                    v = Ptr(self.interior(v.obj, v.off), 0)
            st.heap[('po', p.off)] = z3.Store(self.heap_arr(st, ('po', p.off)), oi(p.obj), oi(v.obj))
            if self.struct_target(t):
                if not (isinstance(v.off, int) and v.off == 0):
                    raise Unsupported('interior struct pointer stored in heap')
            else:
                st.heap[('pf', p.off)] = z3.Store(self.heap_arr(st, ('pf', p.off)), oi(p.obj), bv(v.off, 64))
            return
        st.heap[(c, p.off)] = z3.Store(self.heap_arr(st, (c, p.off)), oi(p.obj), bv(v, c))

    # ---------------------------------------------------------- expressions
    def symkind(self, name):
        s = self.prog.sym.get(name)
        if s is not None and s.get('isStaticLifetime'):
            return 'global'
        if s is not None and s['type'].get('id') == 'code':
            return 'code'
        return 'local'

    def local_in_mem(self, func, name, t):
        return t.k in ('array', 'struct', 'union') or (func is not None and name in func.addr_taken)

    def ev(self, e):
        k = id(e)
        f = self.cexpr.get(k)
        if f is None:
            f = self._ev(e)
            self.cexpr[k] = f
            self.cexpr[('keep', k)] = e
        return f

    def lv(self, e):
        """compile lvalue -> closure(st) -> ('env', key) or Ptr"""
        k = ('lv', id(e))
        f = self.cexpr.get(k)
        if f is None:
            f = self._lv(e)
            self.cexpr[k] = f
            self.cexpr[('keep', k)] = e
        return f

    def etype(self, e):
        return self.prog.typ(e['namedSub']['type'])

    def _lv(self, e):
        i = e['id']
        if i == 'symbol':
            name = e['namedSub']['identifier']['id']
            t = self.etype(e)
            kind = self.symkind(name)
            if kind == 'global':
                return lambda st: Ptr(self.global_obj(st, name), 0)
            if kind == 'code':
                return lambda st: Ptr('fn:' + name, 0)
            def f(st):
                fr = st.frames[-1]
                key = (fr[0], name)
                if self.local_in_mem(fr[1], name, t):
                    oid = st.env.get(('obj',) + key)
                    if oid is None:
                        oid = self.new_obj(st, name, self.prog.sizeof(t))
                        st.env[('obj',) + key] = oid
                    return Ptr(oid, 0)
                return ('env', key)
            return f
        if i == 'index':
            base, idx = e['sub']
            bl = self.lv(base)
            iv = self.ev(idx)
            bt = self.etype(base)
            it = self.etype(idx)
            es = self.prog.sizeof(bt.to)
            n = bt.n
            def f(st):
                p = bl(st)
                i = iv(st)
                return Ptr(p.obj, self.padd(p.off, i, it, es))
            return f
        if i == 'member':
            s = e['sub'][0]
            nm = e['namedSub']['component_name']['id']
            sl = self.lv(s)
            off = [None]
            def f(st):
                if off[0] is None:
                    off[0] = self.prog.field(self.etype(s), nm)[1]
                p = sl(st)
                if off[0] == 0:
                    return p
                return Ptr(p.obj, self.addoff(p.off, off[0]))
            return f
        if i == 'dereference':
            pv = self.ev(e['sub'][0])
            return pv
        if i == 'string_constant':
            s = e['namedSub']['value']['id'].encode('latin-1')
            return lambda st: Ptr(self.string_obj(s), 0)
        if i.startswith('byte_extract'):
            bl = self.lv(e['sub'][0])
            ov = self.ev(e['sub'][1])
            ot = self.etype(e['sub'][1])
            return lambda st: (lambda p: Ptr(p.obj, self.padd(p.off, ov(st), ot, 1)))(bl(st))
        if i == 'typecast':
            return self.lv(e['sub'][0])
        raise Unsupported('lvalue ' + i)

    def addoff(self, off, k):
        if isinstance(off, int) and isinstance(k, int):
            return off + k
        return bv(off, 64) + bv(k, 64)

    def padd(self, off, i, it, es):
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            return self.addoff(off, i * es)
        w = it.w
        x = i
        if w < 64:
            x = z3.SignExt(64 - w, i) if it.signed else z3.ZeroExt(64 - w, i)
        if es != 1:
            x = x * z3.BitVecVal(es, 64)
        return bv(off, 64) + x

    def load(self, st, l, t):
        if isinstance(l, tuple):
            v = st.env.get(l[1])
            if v is None:
                v = fresh_val('uninit.%s' % (l[1][1],), t)
                st.env[l[1]] = v
            return v
        if t.k in ('struct', 'union', 'array'):
            return ('agg', l, t)
        if t.k == 'code':
            return l
        return self.read(st, l, t)

    def store(self, st, l, t, v):
        if isinstance(l, tuple):
            st.env[l[1]] = v
            return
        if isinstance(v, tuple) and v[0] == 'agg':
            for off, lt in list(self.prog.leaves(t)):
                view, self.view = self.view, None        # a copy of a whole union is not a look at its members
                try:
                    x = self.read(st, Ptr(v[1].obj, self.addoff(v[1].off, off)), lt)
                finally:
                    self.view = view
                self.write(st, Ptr(l.obj, self.addoff(l.off, off)), lt, x)
            return
        self.write(st, l, t, v)

    def _ev(self, e):
        i = e['id']
        ns = e.get('namedSub', {})
        sub = e.get('sub', [])
        P = self.prog
        if i in ('symbol', 'index', 'member', 'dereference') or i.startswith('byte_extract'):
            t = self.etype(e)
            if i == 'dereference' and t.k == 'code':
                return self.ev(sub[0])
            l = self.lv(e)
            if i == 'symbol' and self.symkind(ns['identifier']['id']) == 'local' and t.k not in ('array', 'struct', 'union'):
                name = ns['identifier']['id']
                def f(st):
                    fr = st.frames[-1]
                    v = st.env.get((fr[0], name))
                    if v is not None:
                        return v
                    return self.load(st, l(st), t)
                return f
            return lambda st: self.load(st, l(st), t)
        if i == 'constant':
            t = self.etype(e)
            v = ns['value']['id']
            if t.k == 'bool':
                b = v == 'true'
                return lambda st: b
            if t.k == 'ptr':
                if v in ('NULL', '0'):
                    return lambda st: NULL
                raise Unsupported('pointer constant ' + v)
            if t.k == 'float':
                return lambda st: fresh_bv('float', t.w)
            c = norm(int(v, 16), t)
            return lambda st: c
        if i == 'address_of':
            s = sub[0]
            if s['id'] == 'symbol' and self.symkind(s['namedSub']['identifier']['id']) == 'code':
                n = s['namedSub']['identifier']['id']
                return lambda st: Ptr('fn:' + n, 0)
            l = self.lv(s)
            return l
        if i == 'typecast':
            return self._cast(e)
        if i in ('and', 'or', '=>'):
            fs = [self.ev(s) for s in sub]
            if i == '=>':
                return lambda st: b_imp(fs[0](st), fs[1](st))
            conj = i == 'and'
            def f(st):
                out = []
                n0 = len(self.guards)
                try:
                    for g in fs:
                        v = g(st)
                        if isinstance(v, bool):
                            if v != conj:
                                # decided (guarded by earlier symbolic operands)
                                return (b_and if conj else b_or)(*out, v)
                            continue
                        out.append(v)
                        self.guards.append(v if conj else z3.Not(v))
                finally:
                    del self.guards[n0:]
                return (b_and if conj else b_or)(*out)
            return f
        if i == 'not':
            f0 = self.ev(sub[0])
            return lambda st: b_not(f0(st))
        if i == 'if':
            c, a, b = [self.ev(s) for s in sub]
            t = self.etype(e)
            def f(st):
                cv = c(st)
                if isinstance(cv, bool):
                    return a(st) if cv else b(st)
                d = self.decided(st, cv)
                if d is not None:
                    return a(st) if d else b(st)
                if t.k == 'ptr':
                    raise Fork(cv)
                self.guards.append(cv)
                try:
                    x = a(st)
                finally:
                    self.guards.pop()
                self.guards.append(z3.Not(cv))
                try:
                    y = b(st)
                finally:
                    self.guards.pop()
                if t.k == 'bool':
                    return z3.If(cv, zb(x), zb(y))
                if is_c(x) and is_c(y) and x == y:
                    return x
                return z3.If(cv, bv(x, t.w), bv(y, t.w))
            return f
        if i in ('=', 'notequal', '<', '<=', '>', '>='):
            return self._cmp(e)
        if i in ('+', '-', '*', '/', 'mod', 'bitand', 'bitor', 'bitxor', 'shl', 'ashr', 'lshr'):
            return self._arith(e)
        if i == 'bitnot':
            f0 = self.ev(sub[0])
            t = self.etype(e)
            return lambda st: (lambda v: norm(~v, t) if is_c(v) else ~v)(f0(st))
        if i == 'unary-':
            f0 = self.ev(sub[0])
            t = self.etype(e)
            return lambda st: (lambda v: norm(-v, t) if is_c(v) else -v)(f0(st))
        if i == 'string_constant':
            return self.lv(e)
        if i == 'side_effect':
            t = self.etype(e)
            if t.k in ('empty',):
                return lambda st: 0
            return lambda st: fresh_val('nondet', t)
        if i == 'pointer_object':
            f0 = self.ev(sub[0])
            return lambda st: f0(st).obj
        if i in ('struct', 'array', 'union'):
            t = self.etype(e)
            def f(st):
                vals = {}
                self.flatten(e, t, 0, vals)
                oid = self.new_obj(st, 'lit', P.sizeof(t))
                for c, d in vals.items():
                    st.mem[oid].cells[c] = Cells(c, base=dict(d))
                return ('agg', Ptr(oid, 0), t)
            return f
        if i == 'nil':
            return lambda st: 0
        raise Unsupported('expression ' + i)

    def decided(self, st, c):
        for x, b in st.ghost.get('decided', ()):
            if x.eq(c):
                return b
        return None

    def _cast(self, e):
        s = e['sub'][0]
        f0 = self.ev(s)
        t = self.etype(e)
        ft = self.etype(s)
        if t.k == 'ptr':
            if ft.k == 'ptr':
                return f0
            def f(st):
                v = f0(st)
                if is_c(v):
                    return NULL if v == 0 else Ptr(-1, int(v))
                raise Unsupported('int to pointer')
            return f
        if t.k == 'empty':
            return f0
        if t.k == 'bool':
            if ft.k == 'ptr':
                return lambda st: (lambda p: b_not(oeq(p.obj, 0)) if not isinstance(p.obj, str) else True)(f0(st))
            if ft.k == 'bool':
                return f0
            return lambda st: (lambda v: bool(v) if is_c(v) else v != 0)(f0(st))
        if t.k == 'int':
            if ft.k == 'bool':
                return lambda st: (lambda v: int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, t.w), z3.BitVecVal(0, t.w)))(f0(st))
            if ft.k == 'int':
                def f(st):
                    v = f0(st)
                    if is_c(v):
                        return norm(int(v), t)
                    if t.w == ft.w:
                        return v
                    if t.w < ft.w:
                        return z3.Extract(t.w - 1, 0, v)
                    return z3.SignExt(t.w - ft.w, v) if ft.signed else z3.ZeroExt(t.w - ft.w, v)
                return f
            if ft.k == 'ptr':
                def f(st):
                    p = f0(st)
                    if isinstance(p.obj, int) and p.obj == 0:
                        return norm(p.off, t) if isinstance(p.off, int) else p.off
                    raise Unsupported('pointer to int')
                return f
            if ft.k == 'float':
                return lambda st: fresh_bv('float2int', t.w)
        if t.k == 'float':
            return lambda st: fresh_bv('float', t.w)
        if t.k in ('array', 'struct', 'union'):
            return f0
        raise Unsupported('cast %s->%s' % (ft.k, t.k))

    def _cmp(self, e):
        i = e['id']
        a, b = [self.ev(s) for s in e['sub']]
        t = self.etype(e['sub'][0])
        if t.k == 'ptr':
            def f(st):
                x, y = a(st), b(st)
                if i in ('=', 'notequal'):
                    r = self.ptr_eq(x, y)
                    return r if i == '=' else b_not(r)
                so = oeq(x.obj, y.obj)
                if so is not True:
                    self.oblige(st, 'pointer-comparison-same-object', so, self.where(st))
                return self.icmp(i, x.off, y.off, T('int', 64, True))
            return f
        if t.k == 'bool':
            def f(st):
                x, y = a(st), b(st)
                if isinstance(x, bool) and isinstance(y, bool):
                    r = x == y
                else:
                    r = zb(x) == zb(y)
                return r if i == '=' else b_not(r)
            return f
        if t.k == 'float':
            return lambda st: z3.Bool(fresh_name('fcmp'))
        return lambda st: self.icmp(i, a(st), b(st), t)

    def ptr_eq(self, x, y):
        if isinstance(x.obj, str) or isinstance(y.obj, str):
            return x.obj == y.obj
        # NULL: only the object matters
        if isinstance(x.obj, int) and x.obj == 0 or isinstance(y.obj, int) and y.obj == 0:
            return oeq(x.obj, y.obj)
        return peq(x, y)

    def icmp(self, i, x, y, t):
        if is_c(x) and is_c(y):
            x, y = int(x), int(y)
            return {'=': x == y, 'notequal': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[i]
        x, y = bv(x, t.w), bv(y, t.w)
        if i == '=':
            return x == y
        if i == 'notequal':
            return x != y
        if t.signed:
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[i]
        return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[i](x, y)

    def _arith(self, e):
        i = e['id']
        fs = [self.ev(s) for s in e['sub']]
        ts = [self.etype(s) for s in e['sub']]
        t = self.etype(e)
        if t.k == 'ptr':
            # pointer +/- integer
            k = 0 if ts[0].k == 'ptr' else 1
            es = self.prog.sizeof(self.prog.typ(ts[k].to))
            def f(st):
                p = fs[k](st)
                v = fs[1 - k](st)
                if i == '-':
                    v = -v
                return Ptr(p.obj, self.padd(p.off, v, ts[1 - k], es))
            return f
        if i == '-' and ts[0].k == 'ptr':
            es = self.prog.sizeof(self.prog.typ(ts[0].to))
            def f(st):
                x, y = fs[0](st), fs[1](st)
                so = oeq(x.obj, y.obj)
                if so is not True:
                    self.oblige(st, 'pointer-difference-same-object', so, self.where(st))
                if isinstance(x.off, int) and isinstance(y.off, int):
                    return (x.off - y.off) // es
                d = bv(x.off, 64) - bv(y.off, 64)
                return d if es == 1 else d / z3.BitVecVal(es, 64)
            return f
        if t.k == 'float':
            return lambda st: fresh_bv('float', t.w)
        def f(st):
            vs = [g(st) for g in fs]
            r = vs[0]
            for n, v in enumerate(vs[1:]):
                r = self.binop(st, i, r, v, t, ts[n + 1])
            return r
        return f

    def binop(self, st, i, x, y, t, yt):
        w = t.w
        if is_c(x) and is_c(y):
            x, y = int(x), int(y)
            if i == '+': r = x + y
            elif i == '-': r = x - y
            elif i == '*': r = x * y
            elif i == '/':
                if y == 0: raise Unsupported('division by zero')
                r = abs(x) // abs(y)
                if (x < 0) != (y < 0): r = -r
            elif i == 'mod':
                r = abs(x) % abs(y)
                if x < 0: r = -r
            elif i == 'bitand': r = x & y
            elif i == 'bitor': r = x | y
            elif i == 'bitxor': r = x ^ y
            elif i == 'shl': r = x << (y & (w - 1)) if y < w else 0
            elif i == 'ashr': r = x >> y
            elif i == 'lshr': r = (x & ((1 << w) - 1)) >> y
            return norm(r, t)
        if i in ('shl', 'ashr', 'lshr') and yt.w != w:
            if not is_c(y):
                y = z3.ZeroExt(w - yt.w, y) if yt.w < w else z3.Extract(w - 1, 0, y)
        X, Y = bv(x, w), bv(y, w)
        if i == '+': r = X + Y
        elif i == '-': r = X - Y
        elif i == '*': r = X * Y
        elif i == '/': r = X / Y if t.signed else z3.UDiv(X, Y)
        elif i == 'mod': r = z3.SRem(X, Y) if t.signed else z3.URem(X, Y)
        elif i == 'bitand': r = X & Y
        elif i == 'bitor': r = X | Y
        elif i == 'bitxor': r = X ^ Y
        elif i == 'shl': r = X << Y
        elif i == 'ashr': r = X >> Y
        elif i == 'lshr': r = z3.LShR(X, Y)
        return concretize(z3.simplify(r), t)

    # ---------------------------------------------------------- execution
    def run_function(self, st, name, args):
        """execute a function body; returns [(state, return value)] over all paths"""
        f = self.prog.funcs.get(name)
        if f is None:
            raise Unsupported('no body for ' + name)
        out = []
        fid = next(self.fid)
        st.frames = st.frames + [(fid, f, 0)]
        self.bind_params(st, f, fid, args)
        for kind, s, v in self.explore([(f, 0, s0) for s0 in [st]], depth=len(st.frames)):
            if kind == 'return':
                out.append((s, v))
            elif kind == 'exit':
                out.append((s, ('exit', v)))
        return out

    def bind_params(self, st, f, fid, args):
        for pn, a in zip(f.params, args):
            if not pn:
                continue
            t = self.prog.typ(self.prog.sym[pn]['type'])
            if self.local_in_mem(f, pn, t):
                oid = self.new_obj(st, pn, self.prog.sizeof(t))
                st.env[('obj', fid, pn)] = oid
                if isinstance(a, tuple):
                    self.store(st, Ptr(oid, 0), t, a)
                else:
                    self.write(st, Ptr(oid, 0), t, a)
            else:
                st.env[(fid, pn)] = a

    def explore(self, work, depth, stop=None):
        """explore paths; yields ('return', st, val) when the frame at `depth` returns,
        ('exit', st, code) on program exit, ('stop', st, (f,pc)) when stop(f,pc,st) says so,
        ('back', st, (f,pc)) when an active loop head is reached again."""
        work = list(work)
        results = []
        npaths = 0
        while work:
            f, pc, st = work.pop()
            npaths += 1
            if npaths > self.max_paths:
                raise Unsupported('too many paths in ' + f.name)
            r = self.path(f, pc, st, depth, stop, work)
            if r is not None:
                results.extend(r)
        return results

    def path(self, f, pc, st, depth, stop, work):
        first = True
        while True:
            fr = st.frames[-1]
            st.frames[-1] = (fr[0], f, pc)
            fid = fr[0]
            if not first or True:
                if stop is not None and stop(f, pc, st):
                    return [('stop', st, (f, pc))]
            if pc in f.heads:
                lk = (fid, pc)
                if self.head_hook is not None:
                    self.head_hook(f, pc, st, fid)
                act = st.ghost.get(('loop', lk))
                spec = self.get_loop(f, pc)
                if spec is None:
                    n = st.ghost.get(('unroll', lk), 0) + 1
                    st.ghost[('unroll', lk)] = n
                    if n > self.unroll:
                        raise Unsupported('loop without invariant unrolled %d times: %s line %s' % (n, f.name, f.line(pc)))
                elif act:
                    if not st.ghost.pop(('justin', lk), None):
                        return [('back', st, (f, pc, fid))]
                else:
                    return self.do_loop(f, pc, st, depth, stop, spec, fid)
            first = False
            x = f.ins[pc]
            k = x['instructionId']
            try:
                if k == 'GOTO':
                    g = x.get('guard')
                    c = True if g is None else self.ev(g)(st)
                    tgt = f.targets[pc][0]
                    if not isinstance(c, bool):
                        c = z3.simplify(c)
                        if z3.is_true(c): c = True
                        elif z3.is_false(c): c = False
                    if isinstance(c, bool):
                        pc = tgt if c else pc + 1
                        continue
                    st.model2 = None
                    ft = self.feasible(st, [c])
                    mt, st.model2 = st.model2, None
                    fn = self.feasible(st, [z3.Not(c)])
                    mn = st.model2
                    if ft and fn:
                        s2 = st.fork()
                        s2.assume(c)
                        if mt is not None:
                            s2.model = (len(s2.pc), mt[1])
                        s2.trace.append((f.name, f.line(pc), True))
                        work.append((f, tgt, s2))
                        st.assume(z3.Not(c))
                        if mn is not None:
                            st.model = (len(st.pc), mn[1])
                        st.trace.append((f.name, f.line(pc), False))
                        pc += 1
                        continue
                    if ft:
                        st.assume(c)
                        pc = tgt
                    elif fn:
                        st.assume(z3.Not(c))
                        pc += 1
                    else:
                        return []
                    continue
                if k == 'ASSIGN':
                    lhs, rhs = x['code']['sub']
                    v = self.ev(rhs)(st)
                    t = self.etype(lhs)
                    if z3.is_expr(v):
                        v = z3.simplify(v)
                        v = concretize(v, t)
                    self.store(st, self.lv(lhs)(st), t, v)
                elif k == 'DECL':
                    s = x['code']['sub'][0]
                    name = s['namedSub']['identifier']['id']
                    t = self.etype(s)
                    if self.local_in_mem(f, name, t):
                        oid = self.new_obj(st, name, self.prog.sizeof(t))
                        st.env[('obj', fid, name)] = oid
                    else:
                        st.env.pop((fid, name), None)
                elif k == 'DEAD':
                    s = x['code']['sub'][0]
                    name = s['namedSub']['identifier']['id']
                    st.env.pop((fid, name), None)
                elif k == 'FUNCTION_CALL':
                    r = self.do_call(f, pc, st, depth, stop, work)
                    if r is None:
                        pass
                    elif r == 'pushed':
                        f, pc = st.frames[-1][1], 0
                        continue
                    else:
                        return r[1]
                elif k == 'SET_RETURN_VALUE':
                    v = self.ev(x['code']['sub'][0])(st)
                    st.env[(fid, '#ret')] = v
                elif k == 'END_FUNCTION':
                    v = st.env.get((fid, '#ret'))
                    self.drop_frame(st, fid, f)
                    if len(st.frames) + 1 == depth:
                        return [('return', st, v)]
                    cf = st.frames[-1]
                    f, pc = cf[1], cf[2]
                    call = f.ins[pc]['code']
                    lhs = call['sub'][0]
                    if lhs['id'] != 'nil' and v is not None:
                        self.store(st, self.lv(lhs)(st), self.etype(lhs), v)
                elif k == 'ASSERT':
                    c = self.ev(x['guard'])(st)
                    if self.assert_as == 'oblige':
                        self.oblige(st, 'assert', c, self.where(st))
                        if c is False:
                            return []
                        st.assume(c)
                    elif c is False:
                        return [('exit', st, 'assert')]
                    else:
                        st.assume(c)
                elif k == 'ASSUME':
                    st.assume(self.ev(x['guard'])(st))
                elif k in ('SKIP', 'LOCATION', 'OTHER', 'ATOMIC_BEGIN', 'ATOMIC_END'):
                    pass
                else:
                    raise Unsupported('instruction ' + k)
            except Fork as fk:
                c = fk.cond
                out = []
                for b in (True, False):
                    cc = c if b else z3.Not(c)
                    if self.feasible(st, [cc]):
                        s2 = st.fork()
                        s2.assume(cc)
                        s2.ghost['decided'] = s2.ghost.get('decided', ()) + ((c, b),)
                        out.append(s2)
                for s2 in out:
                    if pc in f.heads and s2.ghost.get(('loop', (fid, pc))):
                        s2.ghost[('justin', (fid, pc))] = True
                    work.append((f, pc, s2))
                return []
            except ForkDomain as fd:
                for kx in fd.dom:
                    cc = fd.var == kx
                    if self.feasible(st, [cc]):
                        s2 = st.fork()
                        s2.assume(cc)
                        d = dict(s2.ghost.get('decided_obj', {}))
                        d[str(fd.var)] = kx
                        s2.ghost['decided_obj'] = d
                        if pc in f.heads and s2.ghost.get(('loop', (fid, pc))):
                            s2.ghost[('justin', (fid, pc))] = True
                        work.append((f, pc, s2))
                return []
            pc += 1

    def drop_frame(self, st, fid, f):
        st.frames.pop()
        for k in [k for k in st.env if k[0] == fid or (k[0] == 'obj' and k[1] == fid)]:
            del st.env[k]
        for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] in ('loop', 'unroll', 'justin') and k[1][0] == fid]:
            del st.ghost[k]

    def get_loop(self, f, pc):
        if self.loop_for is not None:
            r = self.loop_for(f, pc)
            if r is not None:
                return r
        return self.loops.get((f.name, f.heads.index(pc)))

    def do_call(self, f, pc, st, depth, stop, work):
        code = f.ins[pc]['code']
        lhs, fn, args = code['sub']
        if fn['id'] == 'symbol':
            name = fn['namedSub']['identifier']['id']
        elif fn['id'] == 'dereference':
            p = self.ev(fn['sub'][0])(st)
            if not isinstance(p.obj, str):
                raise Unsupported('indirect call')
            name = p.obj[3:]
        else:
            raise Unsupported('call through ' + fn['id'])
        avs = []
        for a in args.get('sub', []):
            v = self.ev(a)(st)
            if z3.is_expr(v):
                v = concretize(z3.simplify(v), self.etype(a))
            avs.append(v)
        ats = [self.etype(a) for a in args.get('sub', [])]
        c = self.contracts.get(name)
        if c is not None:
            res = c(self, st, avs, ats)
        else:
            m = LIBC.get(name)
            if name in self.prog.funcs and m is None:
                self.inlined.add(name)
                g = self.prog.funcs[name]
                if sum(1 for x in st.frames if x[1] is g) > 6:
                    raise Unsupported('recursion without contract: ' + name)
                st.frames[-1] = (st.frames[-1][0], f, pc)
                nf = next(self.fid)
                st.frames.append((nf, g, 0))
                self.bind_params(st, g, nf, avs)
                return 'pushed'
            if m is None:
                raise Unsupported('no contract or body for ' + name)
            self.used_models.add(name)
            res = m(self, st, avs, ats)
        # res: list of (state, value) ; value ('exit', code) ends the program
        conts = []
        outs = []
        for s2, v in res:
            if isinstance(v, tuple) and v and v[0] == 'exit':
                outs.append(('exit', s2, v[1]))
                continue
            if lhs['id'] != 'nil':
                t = self.etype(lhs)
                if v is None:
                    v = fresh_val('ret.' + name, t)
                self.store(s2, self.lv(lhs)(s2), t, v)
            conts.append(s2)
        if len(conts) == 1 and conts[0] is st and not outs:
            return None
        for s2 in conts:
            work.append((f, pc + 1, s2))
        return ('done', outs)

    # ---------------------------------------------------------- loops
    def changed(self, a, b):
        """keys whose value differs between head state a and later state b"""
        ch = {}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None or w is v:
                continue
            if self.same(v, w):
                continue
            ch[('env', k)] = w
        for oid, o in a.mem.items():
            o2 = b.mem.get(oid)
            if o2 is o or o2 is None or o.const:
                continue
            for c in set(o.cells) | set(o2.cells):
                c1, c2 = o.cells.get(c), o2.cells.get(c)
                if c1 is c2 or c2 is None:
                    continue
                if c1 is None:
                    c1 = Cells(c)
                if c1.arr is None and c2.arr is None:
                    for off, w in c2.d.items():
                        v = c1.d.get(off)
                        if v is None and isinstance(c1.base, dict):
                            v = c1.base.get(off, NULL if c == 'p' else 0)
                        if v is None:
                            if self._is_uninit(w, o.name):
                                continue
                            if c == 'p':
                                ch[('mem', oid, c, None)] = None
                                break
                            ch[('mem', oid, c, off)] = w
                        elif not self.same(v, w):
                            ch[('mem', oid, c, off)] = w
                else:
                    if c1.arr is not None and c2.arr is not None:
                        if c == 'p':
                            if c1.arr[0].eq(c2.arr[0]) and c1.arr[1].eq(c2.arr[1]):
                                continue
                        elif c1.arr.eq(c2.arr):
                            continue
                    ch[('mem', oid, c, None)] = None
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None:
                x = self.heap_arr(State(), k)
            if y is None or x.eq(y):
                continue
            ch[('heap', k)] = None
        if a.nexto is not None and b.nexto is not None and not a.nexto.eq(b.nexto):
            ch[('nexto',)] = None
        return ch

    def _is_uninit(self, w, name):
        return z3.is_expr(w) and z3.is_const(w) and str(w).startswith('uninit.')

    def same(self, v, w):
        if isinstance(v, Ptr) and isinstance(w, Ptr):
            return self.same(v.obj, w.obj) and self.same(v.off, w.off)
        if isinstance(v, Ptr) != isinstance(w, Ptr):
            return False
        if is_c(v) and is_c(w):
            return int(v) == int(w)
        if z3.is_expr(v) and z3.is_expr(w):
            return v.eq(w)
        if isinstance(v, str) or isinstance(w, str):
            return v == w
        if v is None or w is None:
            return v is w
        if isinstance(v, tuple):
            return v == w
        return False

    def do_loop(self, f, pc, st, depth, stop, spec, fid):
        """cut the loop at its head"""
        lname = spec.name or '%s.loop%d' % (f.name, f.heads.index(pc))
        body = f.loop_body(pc)
        lk = (fid, pc)
        where = '%s:%s' % (f.name, f.line(pc))
        ldepth = len(st.frames)
        entry = st
        havoc = {}     # key -> mode
        cands = None
        self.materialise(f, body, st, fid)
        spec.assigned = {f.ins[n]['code']['sub'][0]['namedSub']['identifier']['id'] for n in body
                         if f.ins[n]['instructionId'] in ('ASSIGN', 'FUNCTION_CALL') and f.ins[n]['code']['sub'][0]['id'] == 'symbol'}
        fixed_entry = spec.inv(self, st, entry) if spec.inv else []
        for nm, c in fixed_entry:
            self.oblige(st, '%s: invariant "%s" holds on entry' % (lname, nm), c, where)
        cl = spec.cands(self, st, entry) if spec.cands else []
        spec.names = {x[0] for x in cl}
        cl = [x[:2] for x in cl if spec.live is None or x[0] in spec.live]
        live = {nm for nm, c in cl} - self.houdini(st, cl)
        if self.verbose:
            print('loop %s: candidates on entry: %s' % (lname, sorted(live)))
        if spec.live is not None:
            self.lost |= {x for x in spec.live if x not in live}
        rounds = 0
        havoc.update(spec.frame)
        for n in body:
            x = f.ins[n]
            if x['instructionId'] in ('ASSIGN', 'FUNCTION_CALL'):
                l = x['code']['sub'][0]
                if l['id'] == 'symbol':
                    key = (fid, l['namedSub']['identifier']['id'])
                    v = st.env.get(key)
                    if v is not None and not isinstance(v, (Ptr, tuple)) and not isinstance(v, bool):
                        havoc.setdefault(('env', key), 'int')
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported('loop frame did not stabilise: ' + lname)
            h = st.fork()
            if rounds == 1:
                pass
            self.apply_havoc(h, havoc, entry)
            for nm, c in (spec.inv(self, h, entry) if spec.inv else []):
                h.assume(c)
            bound = set()
            for x in (spec.cands(self, h, entry) if spec.cands else []):
                if x[0] in live and len(x) > 2 and x[2] is not None and x[2][0] not in bound and ('env', x[2][0]) in havoc:
                    bound.add(x[2][0])       # an equation: substitute instead of assuming
                    h.env[x[2][0]] = x[2][1]
            for x in (spec.cands(self, h, entry) if spec.cands else []):
                if x[0] in live and not (not isinstance(x[1], bool) and z3.is_true(z3.simplify(x[1]))):
                    h.assume(x[1])
            if spec.on_head:
                spec.on_head(self, h, entry)
            h.ghost[('loop', lk)] = True
            h.ghost[('justin', lk)] = True
            head = h.fork()
            nobl = len(self.obls)
            outer_def = self.deferred
            self.deferred = []
            def lstop(f2, pc2, s2, body=body):
                if stop is not None and stop(f2, pc2, s2):
                    return True
                return f2 is f and len(s2.frames) == ldepth and s2.frames[-1][0] == fid and pc2 not in body
            try:
                hs = spec.split(self, h) if spec.split else [h]
                res = []
                for h1 in hs:
                    res += self.explore([(f, pc, h1)], depth, lstop)
            finally:
                mine, self.deferred = self.deferred, outer_def
            backs = [s for k, s, i in res if k == 'back' and i[2] == fid and i[1] == pc]
            if spec.step:
                for b in backs:
                    spec.step(self, b, head, entry)
            other_back = [(k, s, i) for k, s, i in res if k == 'back' and not (i[2] == fid and i[1] == pc)]
            # frame discovery
            again = False
            for b in backs:
                for key, w in self.changed(head, b).items():
                    mode = self.havoc_mode(key, entry, head, w, havoc.get(key))
                    if havoc.get(key) != mode:
                        havoc[key] = mode
                        again = True
            if again:
                del self.obls[nobl:]
                continue
            # houdini
            drop = set()
            for b in backs:
                drop |= self.houdini(b, [x[:2] for x in (spec.cands(self, b, entry) if spec.cands else [])
                                         if x[0] in live and x[0] not in drop])
            if drop:
                live -= drop
                self.lost |= drop
                if self.verbose:
                    print('loop %s: dropped %s' % (lname, sorted(drop)))
                del self.obls[nobl:]
                continue
            if self.verbose:
                print('loop %s: rounds %d, invariant %s, frame %s, %d backs' % (lname, rounds, sorted(live), list(havoc), len(backs)))
            break
        spec.frame = dict(havoc)
        spec.live_out = set(live)
        k = 0
        while k < len(mine):         # obligations met in the same state are discharged together
            j = k + 1
            while j < len(mine) and mine[j][3] == mine[k][3] and len(mine[j][0].pc) == len(mine[k][0].pc) and all(x is y for x, y in zip(mine[j][0].pc, mine[k][0].pc)):
                j += 1
            if j - k > 1 and not self.near:
                self.oblige_all(mine[k][0], [(d[1], d[2]) for d in mine[k:j]], mine[k][3])
            else:
                for d in mine[k:j]:
                    self.oblige(*d)
            k = j
        for b in backs:
            self.oblige_all(b, [('%s: invariant "%s" preserved' % (lname, nm), c) for nm, c in (spec.inv(self, b, entry) if spec.inv else [])], where)
            if spec.on_back:
                spec.on_back(self, b, head, entry)
            for nm in live:
                self._rec(Obligation('%s: candidate invariant "%s" inductive' % (lname, nm), where, 'proved', 0, 'z3'))
        if not self.feasible(head):
            self._rec(Obligation('%s: invariant is satisfiable (vacuity)' % lname, where, 'failed'))
        # continue exits
        out = []
        for k, s, i in res:
            if k == 'back':
                if i[2] == fid and i[1] == pc:
                    continue
                out.append((k, s, i))
            elif k == 'stop':
                f2, pc2 = i
                if stop is not None and stop(f2, pc2, s):
                    out.append((k, s, i))
                    continue
                s.ghost.pop(('loop', lk), None)
                s.ghost.pop(('justin', lk), None)
                out.extend(self.explore([(f2, pc2, s)], depth, stop))
            else:
                out.append((k, s, i))
        return out

    def materialise(self, f, body, st, fid):
        """locals assigned in the loop but not before it hold an unknown value on entry"""
        inner = {f.ins[n]['code']['sub'][0]['namedSub']['identifier']['id'] for n in body if f.ins[n]['instructionId'] == 'DECL'}
        for n in body:
            x = f.ins[n]
            if x['instructionId'] not in ('ASSIGN', 'FUNCTION_CALL'):
                continue
            l = x['code']['sub'][0]
            if l['id'] != 'symbol':
                continue
            name = l['namedSub']['identifier']['id']
            t = self.etype(l)
            if name in inner or (fid, name) in st.env or self.symkind(name) != 'local' or self.local_in_mem(f, name, t):
                continue
            if t.k == 'ptr':
                st.env[(fid, name)] = Ptr(self.undef_obj(st), fresh_bv('uninit', 64))
            elif t.k == 'int':
                st.env[(fid, name)] = fresh_bv('uninit.' + name, t.w)

    def undef_obj(self, st):
        """what an uninitialised pointer refers to: an object that cannot be accessed"""
        oid = self.gobj.get('#undef')
        if oid is None:
            oid = self.gobj['#undef'] = next(self.oid)
            self.names[oid] = 'uninitialised pointer'
        if oid not in st.mem:
            st.mem[oid] = MObj(oid, 'uninitialised pointer', 0, True)
        return oid

    def havoc_mode(self, key, entry, head, w, old):
        """how a changed key must be forgotten: 'int', ('off', obj), ('ptr', domain)"""
        if key[0] == 'mem' and key[3] is None:
            return 'arr'
        if key[0] in ('heap', 'nexto'):
            return 'arr'
        v = self.keyval(entry, key)
        if isinstance(w, Ptr) or isinstance(v, Ptr):
            if not isinstance(v, Ptr):
                v = w if not isinstance(v, Ptr) else v
            dom = None
            same_obj = self.same(v.obj, w.obj)
            zero = isinstance(v.off, int) and isinstance(w.off, int) and v.off == w.off
            if old and old[0] == 'ptr':
                od, oz = old[1], old[2]
                d = self.dom_of(w.obj)
                nd = None if (od is None or d is None) else tuple(sorted(set(od) | set(d)))
                return ('ptr', nd, oz if (oz is not None and isinstance(w.off, int) and w.off == oz) else None)
            if same_obj and not (old and old[0] == 'ptr'):
                return ('off',)
            d1, d2 = self.dom_of(v.obj), self.dom_of(w.obj)
            nd = None if (d1 is None or d2 is None) else tuple(sorted(set(d1) | set(d2)))
            und = self.gobj.get('#undef')
            if nd is None and any(isinstance(o, int) and o > 0 and o != und and o not in self.heap_objs for o in (v.obj, w.obj)):
                raise Unsupported('pointer may refer to local object or heap: %s' % (key,))
            return ('ptr', nd, v.off if zero else None)
        if isinstance(w, tuple):
            raise Unsupported('aggregate in loop frame')
        return 'int'

    def houdini(self, st, cl):
        """names of the candidates not provable in st"""
        drop = set()
        todo = []
        for nm, c in cl:
            if isinstance(c, bool):
                if not c:
                    drop.add(nm)
            elif not z3.is_true(z3.simplify(c)):
                todo.append((nm, c))
        while todo:
            s = z3.Solver()          # a fresh one: not incremental
            s.set('timeout', 2 * self.cand_timeout)
            s.add(*[zb(h) for h in st.pc])
            s.add(z3.Not(z3.And(*[c for nm, c in todo])))
            t = time.time()
            r = s.check()
            self.stats['z3'] += time.time() - t
            self.stats['checks'] += 1
            if r == z3.unsat:
                break
            if r == z3.unknown:
                # fall back to one at a time
                for nm, c in todo:
                    if self.check(list(st.pc) + [z3.Not(c)], self.cand_timeout)[0] != z3.unsat:
                        drop.add(nm)
                break
            m = s.model()
            bad = {nm for nm, c in todo if not z3.is_true(m.eval(c, model_completion=True))}
            if not bad:
                bad = {todo[0][0]}
            drop |= bad
            todo = [x for x in todo if x[0] not in bad]
        return drop

    def dom_of(self, o):
        if isinstance(o, int):
            return (o,)
        o = z3.simplify(o)
        if z3.is_int_value(o):
            return (o.as_long(),)
        return self.domains.get(str(o))

    def keyval(self, st, key):
        if key[0] == 'env':
            return st.env.get(key[1])
        if key[0] == 'mem':
            o = st.mem.get(key[1])
            ce = o.cells.get(key[2]) if o else None
            if ce is None:
                return None
            v = ce.d.get(key[3])
            if v is None and isinstance(ce.base, dict):
                v = ce.base.get(key[3], NULL if key[2] == 'p' else 0)
            return v
        return None

    def key_type_w(self, key, v):
        return v

    def apply_havoc(self, st, havoc, entry):
        for key, mode in havoc.items():
            if key[0] == 'env':
                v = st.env.get(key[1])
                st.env[key[1]] = self.havoc_value(st, str(key[1][1]), v, mode, key)
            elif key[0] == 'mem':
                oid, c, off = key[1:]
                o = st.mem[oid]
                if off is None:
                    a = arr_fresh(o.name, c)
                    if c == 'p' and oid in self.pobj:
                        a = (z3.K(BV64, z3.IntVal(self.pobj[oid])), a[1])
                    self._setcell(st, o, c, Cells(c, None, {}, a))
                else:
                    ce = (o.cells.get(c) or Cells(c)).copy()
                    if ce.arr is not None:
                        continue
                    v = self.keyval(st, key)
                    ce.d[off] = self.havoc_value(st, o.name, v, mode, key)
                    self._setcell(st, o, c, ce)
            elif key[0] == 'heap':
                k = key[1]
                a = self.heap_arr(st, k)
                st.heap[k] = z3.Const(fresh_name('H%s' % (k,)), a.sort())
            elif key[0] == 'nexto':
                st.nexto = z3.Int(fresh_name('nexto'))

    def havoc_value(self, st, nm, v, mode, key):
        if mode == 'int':
            if isinstance(v, bool):
                return z3.Bool(fresh_name(nm))
            if z3.is_expr(v):
                return z3.Const(fresh_name(nm), v.sort())
            if isinstance(v, int):
                w = self.width_of(key)
                return fresh_bv(nm, w)
            if v is None:
                return fresh_bv(nm, self.width_of(key))
            raise Unsupported('havoc of %r' % (v,))
        if mode[0] == 'off':
            return Ptr(v.obj, fresh_bv(nm + '.off', 64))
        if mode[0] == 'ptr':
            n = fresh_name(nm)
            ov = z3.Int(n + '.o')
            if mode[1] is not None:
                self.domains[str(ov)] = mode[1]
                st.assume(z3.Or(*[ov == k for k in mode[1]]))
            return Ptr(ov, mode[2] if mode[2] is not None else z3.BitVec(n + '.f', 64))
        raise Unsupported('havoc mode')

    def width_of(self, key):
        if key[0] == 'mem':
            return key[2]
        name = key[1][1]
        t = self.prog.typ(self.prog.sym[name]['type'])
        return t.w

    # ---------------------------------------------------------- conveniences
    def local(self, st, name):
        """value of a local by source name in the innermost frame"""
        fr = st.frames[-1]
        for k, v in st.env.items():
            if k[0] == fr[0] and isinstance(k[1], str) and k[1].split('::')[-1] == name:
                return v
        for k, v in st.env.items():
            if k[0] == 'obj' and k[1] == fr[0] and k[2].split('::')[-1] == name:
                return Ptr(v, 0)
        return None

    def locals(self, st):
        fr = st.frames[-1]
        return {k[1]: v for k, v in st.env.items() if k[0] == fr[0] and k[1] != '#ret'}

    def summary(self):
        n = len(self.obls)
        ok = sum(1 for o in self.obls if o.status == 'proved')
        return n, ok, [o for o in self.obls if o.status != 'proved']

# ----------------------------------------------------------------- assumed libc contracts
LIBC = {}
def libc(*names):
    def d(f):
        for n in names:
            LIBC[n] = f
        return f
    return d

@libc('printf', 'fprintf', 'fflush', 'puts', 'putchar', 'fputs', 'fputc', 'perror')
def _io(e, st, a, ts):
    return [(st, None)]

@libc('exit', '_exit')
def _exit(e, st, a, ts):
    return [(st, ('exit', a[0]))]

@libc('abort', '__assert_fail')
def _abort(e, st, a, ts):
    e.oblige(st, 'abort-unreachable', False, e.where(st))
    return [(st, ('exit', 'abort'))]

@libc('malloc', 'calloc')
def _malloc(e, st, a, ts):
    n = a[0] if len(a) == 1 else (a[0] * a[1] if is_c(a[0]) and is_c(a[1]) else bv(a[0], 64) * bv(a[1], 64))
    oid = e.new_obj(st, 'malloc', n)
    return [(st, Ptr(oid, 0))]

@libc('free')
def _free(e, st, a, ts):
    return [(st, None)]
