"""P13: dictionary lookup."""
import os, random, struct
from engine import tree, par
from checks import common, dictread

def image(entries):
    """the image format: count, lengths, then keys and texts with a final NUL each"""
    o = struct.pack('>I', len(entries)) + b''.join(bytes([len(k), len(v)]) for k, v in entries)
    return o + b''.join(k + b'\0' + v + b'\0' for k, v in entries)

def build():
    d = tree.make('nonterm.h')
    x = os.path.join(tree.scratch(), 'dict_h')
    tree.sh(['gcc', '-w', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] + tree.CFLAGS + ['-I', d, os.path.join(common.VERIF, 'harness', 'dict_h.c'), 'dictaccs.c', 'memory.c', '-o', x], cwd=d)
    return x

def dictionaries(rnd, n):
    al = [b'abc', b'aeioun123', bytes(range(1, 256))]
    word = lambda a, m: bytes(rnd.choice(a) for _ in range(rnd.randint(0, m)))
    out = [[], [(b'a', b'b')], [(b'', b'empty')], [(b'a', b'')], [(b'a' * 255, b'v' * 255)], [(b'a' * i, b'%d' % i) for i in range(256)], [(bytes([i]), b'x%d' % i) for i in range(1, 256)]]
    out.append([(b'%06d' % i, b'v%d' % i) for i in range(70000)])
    for i in range(n):
        a = rnd.choice(al)
        m = rnd.choice([2, 4, 10, 255])
        d = {word(a, m): word(al[2], rnd.choice([3, 20, 255])) for _ in range(rnd.choice([1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 60, 300]))}
        out.append(sorted(d.items()))
    return out

def keys(rnd, d):
    ks = [k for k, v in d]
    if len(ks) > 5000:
        ks = [ks[0], ks[-1]] + rnd.sample(ks, 3000)
    o = []
    for k in ks:
        o += [k, k + b'a', k[:-1], k[1:], k[:-1] + bytes([max(1, (k[-1] + rnd.choice((1, -1))) & 255)]) if k else b'b']
    return o + [b'', b'z' * 300, b'a' * 3000, b'\xff\xff', b'\1', b'a' * 100000]

def run(x, d, ks, tmp):
    f, g = os.path.join(tmp, 'd'), os.path.join(tmp, 'k')
    with open(f, 'wb') as h:
        h.write(image(d))
    with open(g, 'wb') as h:
        h.write(b'\0'.join(ks) + b'\0')
    st, o, e = common.run_io([x, g], b'', 120, env=dict(os.environ, JBOFIHE_DICTIONARY=f, ASAN_OPTIONS='detect_leaks=0'))
    return st, o.decode().split('\n')[:-1], e

def search(c):
    x = build()
    rnd = random.Random(common.SEED)
    ds = dictionaries(rnd, 200 if common.TIER == 'quick' else 3000)
    n = bad = 0
    tmp = os.path.join(tree.scratch(), 'dict')
    os.makedirs(tmp, exist_ok=True)
    for d in ds:
        m = dict(d)
        ks = keys(rnd, d)
        st, o, e = run(x, d, ks, tmp)
        n += len(ks)
        for i, k in enumerate(ks):
            want = '+' + m[k].hex() if k in m else '-'
            got = o[i] if i < len(o) else 'ended with %s: %s' % (st, e.decode('latin-1')[-300:])
            if got != want:
                bad += 1
                c.failing('lookup in a dictionary of %d entries' % len(d), k.decode('latin-1')[:200], want[:200], got[:400], 'harness/dict_h.c; dictionary image: ' + (image(d).hex() if len(d) < 40 else '%d entries, seed %d' % (len(d), common.SEED)))
                break
        if bad > 10:
            break
    c.bounded.append(dict(what='lookups in the real reader (AddressSanitizer) compared with a Python dictionary', cases=n, disagreements=bad, bound='%d dictionaries of 0 to 70000 entries, keys of 0 to 255 bytes, queries up to 100000 bytes: every key and its neighbours' % len(ds)))
    st, o, e = common.run_io([x, os.path.join(tmp, 'k')], b'', 60, env=dict(os.environ, JBOFIHE_DICTIONARY=os.path.join(tmp, 'none'), ASAN_OPTIONS='detect_leaks=0'))
    if st != 0 or set(o.decode().split()) != {'-'}:
        c.failing('lookup without a dictionary file', '', 'every key absent', '%s %s' % (st, o[:200]), 'harness/dict_h.c')

def check(c):
    def proofs():
        p = dictread.load()
        parts = dict(found=lambda: dictread.lookup(p, 'found'), absent=lambda: dictread.lookup(p, 'absent'), missing=lambda: dictread.lookup(p, 'missing'), reader=lambda: dictread.reader(p))
        def one(k):
            e = parts[k]()
            return dict(obls=[(o.name, o.where, o.status, o.backend, o.ms, o.detail) for o in e.obls], inl=sorted(e.inlined))
        for r in par.pmap(one, list(parts), 4, 700):
            if 'error' in r:
                c.undecided('dictionary reader (%s)' % r['label'], r['error'] + r.get('trace', ''))
            else:
                c.obligations(r['obls'])
                c.functions.update(r['inl'])
        c.functions.update(['dict_lookup', 'read_database', 'get_long'])
        c.assumptions += ['the image holds all the keys and texts its header announces, in byte order, each once (postcondition of the builder, P14), fewer than 2^29 entries',
                          'strcmp is the byte order of C strings; getc returns the bytes of the file in order; fstat, ftell, mmap have their POSIX meaning; Malloc returns fresh memory']
    c.guarded('dictionary reader', proofs)
    search(c)
