"""P01: every word is classified as the morphology prescribes."""
from checks import morf_common as m
def check(c):
    S = c.guarded('morphology proof', lambda: m.deduce(c, ('P01',)))
    m.search(c, ('type',), S.words if S else ())
