"""Verdicts, evidence and replay files shared by all checks."""
import os, sys, json, time, traceback, hashlib, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1

ENGINE = ['goto-cc front end (CBMC 6.11) as the C semantics of the extracted functions',
          'engine/gotovc.py: symbolic-execution VC generator with loop invariants (this repository)',
          'z3 (python z3-solver) and cvc5 1.1.2']
BASE_ASSUME = ['typed memory: an object is accessed only through compatible types (no punning across unions other than those modelled)',
               'integer arithmetic is machine arithmetic (two\'s complement, wrap-around); pointers are (object, offset) pairs',
               'extraction drops nothing of the listed functions: they are taken from the goto program compiled from the current tree; '
               'callees are inlined or replaced by the contracts listed']

class Check:
    def __init__(self, pid, level='proof'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.functions = set()
        self.obls = []            # (name, where, status, backend, ms, detail)
        self.assumptions = list(BASE_ASSUME)
        self.trusted = list(ENGINE)
        self.bounded = []         # bounded stand-ins: dict(what, bound, cases, distinct)
        self.lemmas = []
        self.fail_obl = []        # undischarged
        self.fail_inp = []        # concrete failing inputs on the real code
        self.known = []           # known findings seen again
        self.samples = []

    def obligations(self, lst):
        """lst of (name, where, status, backend, ms, detail)"""
        for o in lst:
            self.obls.append(o[:5])
            if o[2] != 'proved':
                self.fail_obl.append(dict(obligation=o[0], where=o[1], status=o[2], backend=o[3], verifier_output=(o[5] if len(o) > 5 else None)))

    def engine(self, e, where=None):
        self.obligations([(o.name, o.where, o.status, o.backend, o.ms, o.detail) for o in e.obls])
        self.functions |= set(e.inlined)

    def undecided(self, what, why):
        """the contracts could not be bound to the code, or the generator gave up"""
        self.fail_obl.append(dict(obligation=what, where='', status='not generated', backend='-', verifier_output=str(why)[-1500:]))

    def lemma(self, name, n, bad):
        self.lemmas.append(dict(lemma=name, cases=n, failed=len(bad)))
        self.obls.append((name, 'lemma', 'proved' if not bad else 'failed', 'enumeration', 0))
        if bad:
            self.fail_obl.append(dict(obligation=name, where='lemma', status='failed', backend='enumeration', verifier_output=str(bad[:5])))

    def failing(self, what, inp, expected, observed, how):
        self.fail_inp.append(dict(what=what, input=inp, expected=expected, observed=observed, replay=how))

    def guarded(self, what, fn):
        """run a proof part; any exception leaves the obligation undischarged instead of ending the check"""
        try:
            return fn()
        except Exception as ex:
            self.undecided(what, '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-1200:]))
            return None

    def finish(self):
        n = len(self.obls)
        if n == 0 and not self.fail_obl:
            self.undecided('vacuity: at least one obligation is generated', 'no obligation was generated')
        done = sum(1 for o in self.obls if o[2] == 'proved')
        by = {}
        for o in self.obls:
            if o[2] == 'proved':
                by[o[3]] = by.get(o[3], 0) + 1
        cov = dict(obligations=n + sum(1 for f in self.fail_obl if f['status'] == 'not generated'), discharged=done,
                   checker_cmd='./check ' + self.pid, trusted_base=self.trusted,
                   functions_under_contract=sorted(self.functions), discharged_by=by,
                   solver_ms=sum(o[4] for o in self.obls), lemmas=self.lemmas, bounded_stand_ins=self.bounded,
                   obligation_names=sorted({o[0] for o in self.obls})[:60])
        nviol = 1 if (self.fail_inp or self.fail_obl) else 0
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=nviol, known_findings=self.known)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        print('%s: %d obligations, %d discharged %s, %d lemmas, %.0f s' % (self.pid, n, done, by, len(self.lemmas), time.time() - self.t0))
        for b in self.bounded:
            print('  bounded stand-in: %s' % b)
        if not nviol:
            print('%s: holds' % self.pid)
            return 0
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        path = os.path.join(VERIF, 'replay', '%s-%d.json' % (self.pid, os.getpid()))
        with open(path, 'w') as f:
            json.dump(dict(property=self.pid, failing_inputs=self.fail_inp[:20], failed_obligations=self.fail_obl[:20]), f, indent=1)
        for x in self.fail_obl[:6]:
            print('undischarged: %s [%s] %s' % (x['obligation'], x['where'], x['status']))
        for x in self.fail_inp[:6]:
            print('failing input: %s: %r expected %r observed %r' % (x['what'], x['input'], x['expected'], x['observed']))
        print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if self.fail_inp else ' no-failing-input-found'))
        return 1

def run_io(cmd, inp=b'', timeout=60, cwd=None, env=None):
    """(exit status or 'timeout', stdout, stderr)"""
    try:
        p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        return 'timeout', ex.stdout or b'', ex.stderr or b''
