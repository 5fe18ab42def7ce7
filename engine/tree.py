"""Scratch copy of /repo's current working tree with its generated sources."""
import os, subprocess, tempfile, atexit, shutil, hashlib
REPO = os.environ.get('VERIF_REPO', '/repo')
CFLAGS = ['-fcommon', '-DHAVE_MMAP=1', '-DDEFAULT_DICTIONARY="/usr/local/lib/jbofihe/smujmaji.dat"']
_root = None

def scratch():
    """private scratch directory, removed at exit"""
    global _root
    if _root is None:
        _root = tempfile.mkdtemp(prefix='verif-')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_root, ignore_errors=True)
        atexit.register(rm)
    return _root

class BuildError(Exception):
    pass

def sh(cmd, cwd=None, **kw):
    env = dict(os.environ, LC_ALL='C')
    for v in ('MAKEFLAGS', 'MAKELEVEL', 'CFLAGS', 'CC'):
        env.pop(v, None)
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, **kw)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (cmd, p.stdout.decode('latin-1')[-3000:]))
    return p.stdout

_src = None
def src():
    """copy of the working tree (configured, nothing built)"""
    global _src
    if _src is None:
        d = os.path.join(scratch(), 'src')
        sh(['rsync', '-rlp', '--exclude', '/_build', '--exclude', '/.git', '--exclude', '/tests', '--exclude', '/testing', REPO + '/', d + '/'])
        sh(['perl', 'config.pl', '--prefix=/usr/local'], cwd=d)
        _src = d
    return _src

_made = set()
def make(*targets):
    d = src()
    t = [x for x in targets if x not in _made]
    if t:
        sh(['make'] + t, cwd=d)
        _made.update(t)
    return d

def goto(files, out, defs=(), cwd=None):
    """compile C files of the tree with goto-cc and link them into one goto binary (no main needed)"""
    d = cwd or src()
    obs = []
    for f in files:
        o = os.path.join(scratch(), out + '.' + os.path.basename(f) + '.gb')
        sh(['goto-cc', '-c'] + CFLAGS + list(defs) + ['-I', d, f, '-o', o], cwd=d)
        obs.append(o)
    if len(obs) == 1:
        return obs[0]
    o = os.path.join(scratch(), out + '.gb')
    sh(['goto-cc'] + obs + ['-o', o], cwd=d)
    return o

def cenum(header, names, extra=''):
    """values of C constants, asked from the compiler"""
    d = src()
    c = tempfile.mktemp('.c', 'enum', scratch())
    with open(c, 'w') as f:
        f.write('#include <stdio.h>\n#include "%s"\n%sint main(){' % (header, extra))
        for n in names:
            f.write('printf("%s %%ld\\n",(long)(%s));' % (n, n))
        f.write('return 0;}\n')
    x = c[:-2] + '.x'
    sh(['gcc', '-w'] + CFLAGS + ['-I', d, c, '-o', x])
    return {a.split()[0]: int(a.split()[1]) for a in sh([x]).decode().split('\n') if a.strip()}
