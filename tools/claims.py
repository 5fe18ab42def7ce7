claim('P01', 'Proof for byte strings up to 65535 long: the scan loop and the automaton step satisfy their contracts, and the automaton agrees with an independent specification of the morphology on every reachable pair of states (so for words of every length). Trusts goto-cc, the VC generator, the SMT solvers and the written morphology.')
claim('P02', 'Proof as for P01, with ghost variables for the specified boundaries; the real loop\'s recorded positions are shown equal to them at every exit.')
claim('P03', 'Proof of the backward name automaton (contract, loop invariant) against the specified rule by closure over all reachable configurations; the analysis of the parts by the caller is proved under P05 (word dispatcher) and searched here.')
claim('P04', 'Proof that lookup adds exactly the right token for every string (hash function total and safe on all strings of structure-word form; every table entry found at its hash), with the table compared entry by entry with the reference list.')
claim('P05', 'Proof that the reader hands every word to the analysis exactly once, with the position of its first letter, and that the word dispatcher turns it into its tokens with their text and position (ghost text, line, column, nesting depth and word start; texts below 2^31 bytes, no NUL). The word scanner\'s contract is proved under P01-P03.')
claim('P06', 'Proof over ghost strings that zoi/la\'o take the next word as delimiter, collect words joined by single spaces, end exactly at the delimiter, and that an unfinished quotation is reported; all delimiters and quotations, any length.')
claim('P13', 'Proof for images with fewer than 2^29 entries in byte order: the search finds the key exactly if it is present and returns its text (bisection invariant, termination), the reader builds the table of pointers the image describes; every access in bounds. Trusts the C library and the image format; searched on the real reader as well.')
claim('P14', 'Proof for entry lists below 2^27 entries of the contracts of all builder passes (adding, place erasures and aliases, array, comparison, keeping the last definition, dropping the rest, writing). Cutting source lines at colons and reading an existing image are only covered by the bounded comparison of whole images.')
claim('P15', 'Proof for chains of up to twenty conversions (the program\'s limit) that each step exchanges exactly the two places, in the gloss chooser and in the place assigner, and that the chains climb/descend through every construction listed. Assumes parse trees of the shape the grammar gives; jai is left out.')
claim('P17', 'Proof over arbitrary annotation lists that each accessor finds exactly the annotation of its kind, creates it where asked and leaves all others alone, and that the allocator hands out disjoint zeroed blocks and counts them.')
claim('P07', 'Proof over arbitrary token lists that each erasure pass removes exactly the stretch the rule names (ghost list of kept words, ghost positions for the words sought), keeps links, order and contents of all other words, reports unfinished erasures, and that the three are called per word in order. Searched on the real preprocessor as well.')
claim('P08', 'Proof over arbitrary token lists for zo and lo\'u (which words are taken, which text results, nothing else changed) and for the function that joins the texts of words; zei itself is only covered by the bounded search against the executable specification.')
claim('P09', 'Proof over arbitrary token lists for ba\'e, bu, the pairing of attitude words with their suffixes and their attachment (what is taken out, where it is attached, nothing else changed).')
for i in 'P10 P11 P12 P16 P18 P19 P20 P21 P25'.split():
    NA[i] = 'the functions involved are not yet under contract in this tree; not claimed'
NA['P22'] = 'acceptance by the bison-generated LALR automaton against the published grammar is a property of tables of a language with an error-recovery and terminator-insertion scheme; no function contract within reach states it'
NA['P23'] = 'output formats are dozens of mutually recursive printing routines over the whole tree; their postcondition is the output text itself, for which no specification independent of the code exists'
NA['P24'] = 'place assignment needs the meaning of the whole grammar as its specification; no contract within reach states it'
