"""P14: the dictionary builder."""
import os, random
from engine import tree, par
from checks import common, p13
from spec import lujvo, words

def build():
    d = tree.make('version.h', 'canonluj.inc')
    x = os.path.join(tree.scratch(), 'smujajgau_h')
    tree.sh(['gcc', '-w', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] + tree.CFLAGS + ['-I', d, 'smujajgau.c', 'canonluj.c', '-o', x], cwd=d)
    return x

DIG = b'0123456789'
SP = b' \t\n\v\f\r'

class TooLong(Exception):
    pass

def expected(old, files, T):
    """entries of the image, from an existing image and source texts; None when the build must fail"""
    d = dict(old)
    def put(k, v):
        if len(k) > 255 or len(v) > 255:
            raise TooLong()
        d[k] = v
    def preen(k):
        for s in (b'n', b'v', b'a', b't'):
            d.pop(k + s, None)
    try:
        for f in files:
            ls = f.split(b'\n')
            if ls[-1] == b'':
                ls.pop()
            for l in ls:
                if len(l) > 65500:
                    raise TooLong()
                l = l.lstrip(SP)
                if not l or l[:1] in (b'#', b'!', b';') or b':' not in l:
                    continue
                k, v = l.split(b':')[:2]
                place = k[-1:] and k[-1:] in DIG
                if place:
                    preen(k)
                put(k, v)
                n = 0
                while n < len(k) and k[n:n + 1].isalpha():
                    n += 1
                if place and n >= 6:
                    w = k[:n].decode()
                    c = lujvo.canon(w, T) if words.analyse(w)['cls'] == 'lujvo' else None
                    if c:
                        kc = c.encode() + k[-1:]
                        preen(kc)
                        put(kc, b'@' + k)
    except TooLong:
        return None
    return sorted(d.items())

def cases(rnd, n):
    out = []
    L = ["soirsai", "jbobau", "lojbau", "brivla", "ladbrivla", "tavlydzu", "bajykla", "selkla", "blari'o"]
    L = [w for w in L if words.analyse(w)['cls'] == 'lujvo' and "'" not in w]
    base = ['klama', 'mi', 'do', 'a', 'b', 'klama1', 'klama2', 'soirsai', "le'o", 'x y', '', '1', '11', 'zzz', '*1', 'A', '\xff\xfe', '\x01'] + L
    suf = ['', '1', '2', '1n', '1v', '1a', '1t', '2n', 'n', '9', '99']
    def key():
        r = rnd.random()
        if r < .85:
            return (rnd.choice(base) + rnd.choice(suf)).encode('latin-1')
        return bytes(rnd.choice(b'ab1nvat\x80\xff ') for _ in range(rnd.randint(0, 6))).lstrip()
    def val():
        r = rnd.random()
        return b'' if r < .1 else bytes(rnd.choice(bytes(range(32, 256)).replace(b':', b'')) for _ in range(rnd.choice([1, 3, 8, 30])))
    def line():
        r = rnd.random()
        if r < .05: return rnd.choice([b'', b'   ', b'# comment: x', b'!a:b', b';', b'no colon here', b'\t#x:y'])
        l = rnd.choice([b'', b'', b'', b' ', b'\t ']) + key() + b':' + val()
        if rnd.random() < .2: l += b':comment' + rnd.choice([b'', b':more'])
        return l
    def old():
        d = {key().replace(b'@', b''): val() for _ in range(rnd.randint(0, 8))}
        return sorted(d.items())
    fixed = [([], [b'a:b']), ([], [b'a:b\n']), ([], [b'']), ([], [b'a:b\na:c\na:d\n']), ([(b'a', b'1')], [b'a:2\n']), ([], [b'k1n:x\nk1:y\nk1v:z\n']), ([], [b'k1n:x\n', b'k1:y']),
             ([], [b'k' * 255 + b':v\n']), ([], [b'k' * 256 + b':v\n']), ([], [b'k:' + b'v' * 255 + b'\n']), ([], [b'k:' + b'v' * 256 + b'\n']), ([], [b'k:' + b'v' * 300]), ([], [b'k:' + b'v' * 511 + b'\nb:c\n']),
             ([], [b'k:' + b'v' * 512 + b'\nb:c\n']), ([], [b'k:v:' + b'c' * 60000 + b'\nb:c\n']), ([], [b'k:v:' + b'c' * 70000 + b':z\nb:c\n']), ([], [b'soirsai1:rations\n']), ([], [b'soirsai1n:a\nsoirsai1:b\nsoirsai1n:c\nsoirsai2:d\n']),
             ([], [b':empty key\n']), ([], [b'1:x\n2:y\n1n:z\n1:w\n']), ([], [b'#a:b\n!c:d\n;e:f\n g:h\n']), ([], [b'a:1\n\nb:2']), ([(b'%03d' % i, b'x') for i in range(300)], [b''.join(b'%03d:y%d\n' % (i, i) for i in range(0, 300, 3))]),
             ([], [b''.join(b'w%d:%d\n' % (i * 7919 % 1000, i) for i in range(5000))])]
    out += fixed
    for i in range(n):
        out.append((old() if rnd.random() < .4 else [], [b'\n'.join(line() for _ in range(rnd.randint(0, 12))) + rnd.choice([b'', b'\n']) for _ in range(rnd.randint(1, 3))]))
    return out

def search(c):
    x = build()
    T = lujvo.table(os.path.join(tree.src(), 'reduced_gismu'))
    rnd = random.Random(common.SEED)
    cs = cases(rnd, 1200 if common.TIER == 'quick' else 12000)
    def one(i):
        tmp = os.path.join(tree.scratch(), 'build%d' % i)
        os.makedirs(tmp, exist_ok=True)
        bad = []
        for old, files in cs[i::8]:
            f = os.path.join(tmp, 'd')
            if os.path.exists(f): os.unlink(f)
            if old:
                with open(f, 'wb') as h: h.write(p13.image(old))
            names = []
            for j, t in enumerate(files):
                names.append(os.path.join(tmp, 's%d' % j))
                with open(names[-1], 'wb') as h: h.write(t)
            st, o, e = common.run_io([x, f] + names, b'', 60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
            want = expected(old, files, T)
            try:
                got = open(f, 'rb').read() if st == 0 else None
            except OSError:
                got = None
            if want is None:
                if st != 1:
                    bad.append((old, files, 'an error (status 1)', 'status %s' % st, e))
            elif st != 0 or got != p13.image(want):
                bad.append((old, files, p13.image(want).hex(), got.hex() if got is not None else 'status %s' % st, e))
        return dict(bad=bad)
    n = 0
    for r in par.pmap(one, range(8), 8, 800):
        if 'error' in r:
            raise RuntimeError('builder runs: ' + r['error'])
        for old, files, w, g, e in r['bad'][:5]:
            c.failing('image built by smujajgau', 'existing entries %r, source files %r' % (old[:10], [f[:300] for f in files]), w[:1500], g[:1500] + ' ' + e.decode('latin-1')[-300:] * (g[:3] == 'sta'), 'smujajgau d s0 s1 ...')
        n += len(r['bad'])
    c.bounded.append(dict(what='images built by the real program (AddressSanitizer) compared byte by byte with the specification', cases=len(cs), disagreements=n, bound='up to 5000 lines, three files, existing images; keys and texts up to 512 and lines up to 70000 bytes'))

def check(c):
    from checks import dictwrite
    c.guarded('dictionary builder', lambda: dictwrite.prove(c))
    search(c)
