"""P03: names containing la, lai, doi."""
from checks import morf_common as m, cmene
def check(c):
    words = []
    def names():
        r = cmene.prove()
        c.lemma('contract of the name automaton step: defined and in range on its whole domain', r['step_n'], r['step_bad'])
        c.lemma('name verdict and split position for every name (closure of %d configurations)' % r['lemma_n'], r['lemma_n'], r['lemma_bad'])
        words.extend(x[0] + y for x in r['lemma_bad'][:2000] for y in ('', 'n', 'as', 'an', "a'en"))
        for o in r['out']:
            if 'error' in o:
                c.undecided('is_bad_cmene [%s]' % o['label'], o['error'] + o.get('trace', ''))
            else:
                c.obligations(o['obls'])
                c.functions.update(o['inlined'])
        c.functions.update(['is_bad_cmene', 'bad_cmene_next_state'])
        c.assumptions.append('the name check is called on words of name form (its only caller establishes this: the word scanner\'s contract)')
    c.guarded('name proof', names)
    S = c.guarded('morphology proof', lambda: m.deduce(c, ('P03',)))
    m.search(c, ('cmene',), words)
