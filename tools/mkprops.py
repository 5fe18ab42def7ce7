"""writes properties.jsonl (one property per line)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    P.append(d)

p('P01', 'Every word is assigned its morphological class',
  "Whatever bytes a word consists of, the analyser terminates, reads and writes only its own memory, and reports exactly the class the Lojban morphology assigns (structure words, root word, compound, each kind of borrowed word, name, bad capitals, or no word at all). The class does not depend on the words analysed before.",
  ['inputs'], 'every byte string of any length, both settings of the cultural-compound option', 'the word tests are a list of some 200 words; the word automaton has thousands of states and every word length',
  ['morf.c', 'morf_nfa.in', 'dfasyn/', 'mk_enctab.pl', 'mk_vfetab.pl', 'bccheck.c'],
  [('word scan loop', 'morf.c: morf_scan'), ('automaton step', 'morf.c: morf_next_state'), ('generated tables', 'morf_nfa.in via dfasyn')], observe=['vlatai output', 'jbofihe -k token list'])
p('P02', 'Boundaries of leading structure words are found at the right letters',
  "When a written word consists of structure words run together, or of structure words followed by a root, compound or borrowed word, the analyser reports the start of every one of them at exactly the letter the morphology requires. For borrowed words with a classifier prefix it also reports the hyphen position exactly; no position outside the word is ever reported.",
  ['inputs'], 'every byte string of any length', 'the tests check a few fixed cases of splitting; the splitting depends on the whole left context of each letter',
  ['morf.c', 'morf_nfa.in'], [('word starts and decrement buffer', 'morf.c: morf_scan'), ('fu\'ivla hyphen', 'morf.c: morf_scan')], observe=['vlatai output', 'token columns of jbofihe -k'])
p('P03', 'Names containing la, lai or doi are split or rejected by rule',
  "A word ending in a consonant is a good name exactly when it contains no la, lai or doi, followed by a consonant or apostrophe, at its start or after a vowel or y. For any other the first such syllable is found exactly, together with whether the name comes apart there, and in running text the part before it, the syllable and the rest are analysed in turn as words with their own positions. This holds for names of any length, and a name containing yy is rejected.",
  ['inputs'], 'every name-shaped byte string of any length', 'the tests contain a dozen names; the rule has to hold for every position and combination of la/lai/doi',
  ['bccheck.c', 'bctables.in', 'lex1.c'], [('backward name automaton', 'bccheck.c: is_bad_cmene'), ('splitting', 'lex1.c: process_cmene')], observe=['vlatai', 'jbofihe -k'])
p('P04', 'Every structure word carries its grammatical category, unknown ones are errors',
  "Each word of the published list of structure words is recognised in running text and carries the grammatical category the list gives it; any other word of structure-word form is reported as an unknown word and the run fails. Neither the result nor its position depends on the words around it.",
  ['inputs'], 'every word of structure-word form', 'the tests use a fraction of the 600 words and only a few non-words; a perfect hash is involved that must hold for every string',
  ['lex1.c', 'cmavotab.c', 'functions.c'], [('lookup', 'lex1.c: process_cmavo'), ('perfect hash', 'functions.c: hash_cmavo'), ('table', 'cmavotab.c')], observe=['jbofihe -k'])
p('P05', 'Text is cut into words at separators, with exact line and column positions',
  "Spaces, tabs, newlines, full stops and '>' separate words, digits and ':' stand for their number words, and nested parenthesised comments are skipped wherever they occur. Every word of the text outside comments reaches the analysis exactly once, in order, with the line and column of its first letter. An unclosed comment, or a word too long to analyse, is reported as an error and the run always ends.",
  ['inputs'], 'every text (byte sequence) of any length', 'the test texts are short sentences without comments or digits and never check positions',
  ['lex2.c', 'lex1.c'], [('scanner loop', 'lex2.c: parse_file'), ('word dispatch', 'lex1.c: process_word')], observe=['jbofihe -k', 'error messages with positions', 'exit status'])
p('P06', 'Foreign-text quotations end at their own delimiter and keep their words',
  "After zoi or la'o the next word, whatever it is, is the delimiter; the quotation ends at its next occurrence and consists of exactly the words between, joined by single spaces, none of them interpreted. If the delimiter or its second occurrence is missing the run reports an error. This holds for delimiters and quotations of any length.",
  ['inputs'], 'every sequence of words', 'the tests have few quotations, all with short delimiters and valid endings',
  ['lex1.c', 'lex2.c'], [('quotation state machine', 'lex1.c: process_word'), ('missing delimiter', 'lex2.c: parse_file')], observe=['jbofihe -k', 'exit status'])
p('P07', 'Erasure words remove exactly what the language says',
  "si removes the single word before it (a quotation counting as as many words as it was written with: four for zoi, three for lo'u, two for zo), and n of them remove n words; sa removes back to the last word of the same category as the word after it; su removes back to the last paragraph, quote, group or parenthesis opener (the opener included, as is the word found by sa); where there is none, both remove everything before them; su su removes everything before it. A quotation erased only in part remains as a broken word. Words that are not erased keep their order, content and position, and running out of text is never a crash.",
  ['inputs', 'histories'], 'every token sequence', 'the tests contain a handful of erasures; the effect depends on arbitrary mixtures and order of erasures',
  ['erasure.c', 'lex2.c'], [('si', 'erasure.c: handle_si'), ('sa', 'erasure.c: handle_sa'), ('su', 'erasure.c: handle_su')], state=[('defects', 'si still missing from a partly erased quotation', 'nodes.h: Erasure')], observe=['jbofihe -k'])
p('P08', "Word quotations and compounds (zo, lo'u, zei) bind exactly their operands",
  "zo turns the next word, of any kind, into a one-word quotation; lo'u quotes everything up to the next le'u as written, joined by single spaces; zei joins the words (or quotations) on both sides, and chains of it, into one compound. No other word is consumed, reordered or dropped. Missing operands are reported as errors and never crash the program.",
  ['inputs', 'histories'], 'every token sequence', 'the tests use these words in a few sentences with well-formed operands',
  ['lex2.c'], [('zo', 'lex2.c: handle_zo'), ("lo'u", 'lex2.c: handle_lohu'), ('zei', 'lex2.c: handle_zei')], observe=['jbofihe -k'])
p('P09', "Letterals, emphasis and attitude words attach to the right word (bu, ba'e, UI)",
  "bu turns exactly the word or quotation before it into a letter; ba'e marks exactly the following word as emphasised; attitude words, with their negation and intensity suffixes, attach to the word before them (at the start of the text they stand alone). Every other word is left as it was; a bu with nothing before it is an error.",
  ['inputs', 'histories'], 'every token sequence', 'the tests have few combinations of these words and do not look at what they attach to',
  ['lex2.c', 'properties.c'], [('bu', 'lex2.c: handle_bu'), ("ba'e", 'lex2.c: handle_bahe'), ('indicators', 'lex2.c: handle_indicators')], observe=['jbofihe -k', 'jbofihe -t'])
p('P10', 'The lujvo maker scores and orders candidates by the published formula',
  "For every tanru of known words the maker prints only candidate compounds whose score is the published formula (1000 per letter, minus 500 per apostrophe, plus 100 per hyphen, minus 10 times the sum of rafsi-shape points, minus vowels), in increasing order of score, and never more than the configured number. Every candidate that scores better than a printed one is printed too.",
  ['inputs', 'configurations'], 'every list of component words and every option setting', 'the tests run seven fixed inputs', ['jvocuhadju.c'],
  [('score', 'jvocuhadju.c: score_of_lujvo'), ('list', 'jvocuhadju.c: makelujvo')], observe=['jvocuhadju output'])
p('P11', 'The lujvo maker only offers well-formed compounds with hyphens where required',
  "Every compound offered is accepted by the word analyser as a compound made of exactly the given components: y is inserted between consonants that may not meet and after four-letter forms, r or n after an initial consonant-vowel-vowel form where it would fall off, and y where the first letters could be read as another word. No hyphen is inserted where none is needed.",
  ['inputs'], 'every list of component words', 'the tests run seven fixed inputs of three words or fewer', ['jvocuhadju.c'],
  [('hyphenation', 'jvocuhadju.c: makelujvo'), ('tosmabru test', 'jvocuhadju.c: ends_in_consonant, is_permissible, tosmabru tests')], observe=['jvocuhadju output'])
p('P12', 'Compounds are decomposed into their rafsi and normalised to one canonical form',
  "Every well-formed compound is cut into its component rafsi at the unique valid boundaries, and its dictionary form is the same for every spelling of the same components. Input of any other shape is refused without touching memory outside the word.",
  ['inputs'], 'every byte string', 'the tests gloss a few compounds whose decomposition is unambiguous at first sight', ['canonluj.c', 'lujvofns.c'],
  [('canonical form', 'canonluj.c: canon_lujvo'), ('decomposition', 'canonluj.c')], observe=['gloss output', 'dictionary lookups'])
p('P13', 'Dictionary lookup returns the entry of exactly the key asked for, or nothing',
  "For every sorted dictionary and every key, looking the key up returns the translation stored with exactly that key, whatever its position, and reports absence for every other key. A lookup always ends, whatever the key\'s length, and reads only the dictionary image and the key.",
  ['inputs'], 'every dictionary and every key', 'the tests look up a few dozen words of one dictionary', ['dictaccs.c'],
  [('binary search', 'dictaccs.c: dict_lookup')], observe=['gloss output'])
p('P14', 'The dictionary builder keeps every entry, sorted, the last definition winning',
  "From any list of entries the dictionary builder writes an image in which each key occurs once, in byte order, with the text of the last definition given for it. Every key and text is stored completely, whatever their length, or the build fails with an error. An entry for a place (key ending in a digit) discards the earlier noun, verb, adjective and tag entries (key followed by n, v, a, t) for it, and the place of a compound gets a second entry under its canonical form that refers to the first.",
  ['inputs', 'histories'], 'every entry list', 'the tests never run the builder on anything but the shipped word lists', ['smujajgau.c'],
  [('hash table and sort', 'smujajgau.c'), ('write', 'smujajgau.c: main')], observe=['dictionary image'])
p('P15', 'Place conversions permute exactly the two places they name',
  "se, te, ve and xe exchange the first place with the second, third, fourth and fifth and leave the rest; a chain of conversions (up to the program's limit of twenty) is the composition of the single exchanges in order of nesting. No combination loses or duplicates a place. The places assigned to arguments and the glosses chosen for the predicate agree on this.",
  ['inputs'], 'every chain of up to twenty conversions, in every construction', 'the tests use at most two conversions on a word', ['conversion.c', 'terms.c'],
  [('glosses', 'conversion.c: lookup_converted_place, compute_tu2_conv, conv_tag_se_bai'), ('places', 'terms.c: recover_se_conv, assign_conversion, assign_places')], observe=['place labels of jbofihe -x'])
p('P16', 'The parse tree preserves the words of the text, in order, each exactly once',
  "Building, simplifying and reducing the parse tree never loses, duplicates or reorders a word: reading the leaves from left to right gives the words handed to the parser, with the parent links consistent. This holds whatever constructions the text uses.",
  ['inputs'], 'every accepted text', 'the tests compare a few printed trees', ['nonterm.c', 'functions.c', 'tree.c', 'rpc2x.y'],
  [('node constructors', 'functions.c: node_0, node_n, node_i1'), ('compression', 'tree.c: compress_singletons')], observe=['jbofihe -t', 'bracketed output'])
p('P17', 'Annotations attached to words and constructions are kept and found again',
  "An annotation stored on a word or construction is found again with the values stored, independently of every other annotation and of the order in which they were added; asking for one that was never stored says so. Blocks of memory handed out never overlap, and the statistics reported equal what was handed out.",
  ['histories'], 'every sequence of creations and lookups', 'the tests exercise the fixed order the passes create them in', ['properties.c', 'memory.c'],
  [('property list', 'properties.c: the prop_* accessors'), ('allocation', 'memory.c')], observe=['all annotated outputs', '-m statistics'])
p('P18', 'The exit status tells correct text from each kind of error',
  "The status is 0 exactly for grammatical text, 2 or 1 for a syntax error, 3 for text with bad words. Texts with bad words produce no parse.",
  ['inputs'], 'every text', 'the tests record the status of fixed sentences', ['main.c', 'lex2.c'], [('status', 'main.c: main')], observe=['exit status'])
p('P19', 'Look-ahead markers are placed exactly where the grammar needs them',
  "For every word sequence the parser is handed the words in order, and a marker word of the right kind in front of exactly those sequences that the grammar distinguishes by arbitrary look-ahead (connectives, tenses, number strings, marked utterance ordinals). No marker is missing, duplicated or misplaced.",
  ['inputs'], 'every word sequence', 'the tests contain sentences with a few short look-ahead sequences', ['categ.c', 'stag_nfa.in'], [('categorisation', 'categ.c: categorize_*')], observe=['grammaticality verdict', 'jbofihe -k'])
p('P20', 'Elided terminators are restored exactly where the grammar requires them',
  "When restored terminators are shown, the text with them inserted parses to the same tree; terminators reported as omissible can be omitted without changing it.",
  ['inputs'], 'every accepted text', 'the tests show terminators of fixed sentences', ['elide.c', 'rpc2x.y', 'output2elide.pl'], [('elision', 'elide.c')], observe=['jbofihe -ie, -se'])
p('P21', 'Automatic inflection of English glosses follows the spelling rules',
  "Deriving the agent, plural, gerund and adjective forms of an English gloss follows one fixed spelling rule chosen by the ending, for every gloss of any length, without writing outside its buffers.",
  ['inputs'], 'every gloss string', 'the tests show the inflection of a few dictionary entries', ['translate.c'], [('inflection', 'translate.c: append_er, append_s, append_ing')], observe=['gloss output'])
p('P22', 'Exactly the texts of the published grammar are accepted',
  "A text is accepted exactly when the published formal grammar of Lojban derives it, and the tree shown is the one the grammar assigns.",
  ['inputs'], 'every text', 'the tests are 200 sentences', ['rpc2x.y'], [('grammar', 'rpc2x.y')], observe=['exit status', 'jbofihe -t'])
p('P23', 'Every output format shows the same words and glosses',
  "Plain, blocked, LaTeX and HTML output show every word of the text once, in order, with the same glosses and place labels, properly escaped for the format.",
  ['inputs', 'configurations'], 'every accepted text and output option', 'the tests sample few sentences and formats', ['output.c', 'textout.c', 'latex.c', 'htmlout.c', 'textblk.c', 'latexblk.c'], [('drivers', 'output.c: do_output')], observe=['output'])
p('P24', 'Each argument is assigned the place of the predicate that it fills',
  "Arguments fill the places of their predicate from left to right, skipping those marked explicitly, across connected, converted and tagged predicates, and the output names the right predicate and place for each of them.",
  ['inputs'], 'every accepted text', 'the tests sample a few sentences', ['terms.c', 'conversion.c', 'tracebk.c'], [('place assignment', 'terms.c')], observe=['jbofihe -x'])
p('P25', 'The stand-alone glosser shows every input word once with its own gloss',
  "The grammarless glosser shows each word of the input, in order, with the gloss of that very word, whatever the text and whether or not it is grammatical.",
  ['inputs'], 'every text', 'no test runs the program', ['cm_gather.c', 'cm_translate.c', 'cm_output.c', 'cm_scan.l'], [('gathering', 'cm_gather.c'), ('output', 'cm_output.c')], observe=['cmafihe output'])

for d in P:
    assert len(d['title']) <= 80, d['id']
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
