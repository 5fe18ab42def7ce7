"""P02: word starts and hyphen position."""
from checks import morf_common as m, morf_l2
def check(c):
    def go():
        S = m.deduce(c, ('P02',))
        p = morf_l2.Positions(S.D, S.at)
        c.lemma('recorded marks and remembered hyphen are the specified ones (closure of %d configurations)' % p.size, p.size, p.bad)
        S.words += [x[0] for x in p.bad]
        return S
    S = c.guarded('position proof', go)
    m.search(c, ('starts', 'hyph'), S.words if S else ())
