T = 'contracts on the extracted real code (typed clang AST to WhyML), Why3 obligations discharged by z3/cvc5; executable-contract replay'
NOTE = 'Every obligation generated from the current source must be discharged. Trusted: the extraction, the model of the C++ standard library in why/cxx.mlw, Why3 and the solvers. Machine integers and doubles are treated as mathematical. '
PROPS = [
 dict(id='C01', title='Sparse vectors and maps obey vector arithmetic',
  statement='Feature vectors, whether hashed or sorted, denote functions from feature id to value with zero for absent features; addition, subtraction (in place or not), scaling, inner product, construction from an entry list, conversion, equality and L1 normalisation return exactly what the pointwise definition says for every feature. The sorted form stays strictly ordered by feature after every operation, and repeated features in an entry list are summed.',
  quant='all pairs of feature vectors (any keys, values, sizes, orders, repeated keys) and all scalars', why='Unit tests touch a handful of vectors through other components; the claim is about every pair of vectors and every key, including absent and repeated ones and interleavings of the two sorted sequences.',
  files=['src/lib/sparse-map.cc', 'src/include/travatar/sparse-map.h'],
  mech=[('merge loops over sorted entries', 'src/lib/sparse-map.cc operators on SparseVector'), ('hash-map updates erasing zeros', 'src/lib/sparse-map.cc operators on SparseMap')],
  technique=T, note=NOTE),
 dict(id='C02', title='Symbol ids and the text forms of words, rules and features are faithful',
  statement='The dictionary is a bijection between known strings and dense ids: interning a string returns its existing id or the next free one, never renumbers or forgets anything, returns -1 for unknown strings when adding is off, and WSym(WID(s)) = s, also under concurrent interning. The text forms are faithful: words, multi-column words, annotated rule sides (quoted terminals, xN or xN:LABEL non-terminals, @ label, |COL| columns) and sparse features are split, parsed and printed exactly as defined, printing and parsing back gives the same value, ill-formed rule sides and feature lists are rejected, and escaping of quotes/backslashes and XML characters is exact.',
  quant='all strings, all interning histories, all rule sides, all feature vectors, all white space layouts', why='Tests use a few well-behaved words; the claim covers every symbol (containing =, :, quotes, backslashes, |), every order of interning and every column count.',
  files=['src/lib/dict.cc', 'src/include/travatar/dict.h', 'src/include/travatar/symbol-set.h', 'src/include/travatar/string-util.h'],
  mech=[('map from string to id kept inverse to the id vector under a lock', 'src/include/travatar/symbol-set.h SymbolSet'), ('printers and parsers of the text formats', 'src/lib/dict.cc Print*, Parse*, WSym*, EscapeString, EncodeXML'), ('splitting at a delimiter', 'src/include/travatar/string-util.h Tokenize')],
  technique=T, note=NOTE + 'Proved: symbol table, word/rule-side/column printing and parsing, Tokenize, escaping, and print-then-parse of word lists. Sparse feature text, EscapeQuotes (boost) and concurrency are exercised by the harness only (bounded).'),
 dict(id='C03', title='Evaluation statistics add up; BLEU and NIST are the defined functions of them',
  statement='Statistics of sentences form a vector space: adding, scaling and scaled adding act component by component (also through interpolated measures), empty statistics are neutral, mismatched sizes are rejected, and writing and reading back keeps them. For BLEU, the statistics of a sentence pair are, per n-gram size, the clipped number of matching n-grams and the numbers of n-grams of system and reference; the corpus score is the weighted n-gram precision (smoothing, precision/recall weight, arithmetic or geometric mean, inverse, brevity penalty as configured) of the summed statistics and lies in [0,1], with a sentence scoring 1 against itself; orders without n-grams count as zero. NIST uses information weights from the references and its length penalty. An interpolated measure is the weighted mean (or the given formula) of its parts and initialises them.',
  quant='all corpora, reference/system pairs, n-gram orders and measure configurations', why='Tests pin a few scores of fixed sentences; the claims range over every pair of sentences, every repetition pattern (clipping), every corpus split and every option.',
  files=['src/lib/eval-measure.cc', 'src/lib/eval-measure-bleu.cc', 'src/lib/eval-measure-nist.cc', 'src/lib/eval-measure-interp.cc', 'src/lib/eval-measure-adv-interp.cc'],
  mech=[('component-wise statistics', 'src/lib/eval-measure.cc EvalStats'), ('n-gram counting, clipping and report', 'src/lib/eval-measure-bleu.cc ExtractNgrams, CalculateStats, CalcBleuReport')],
  technique=T, note=NOTE + 'Proved: the component-wise algebra, exact n-gram counts for every n-gram, clipped match statistics, the BLEU report as the exact formula and its range. NIST, interpolation, text forms and option parsing: harness only (bounded).'),
 dict(id='C04', title='WER is Levenshtein distance; RIBES, TER, zero-one follow their definitions',
  statement='WER statistics are exactly the Levenshtein distance (a symmetric distance that is 0 only for equal sentences) and the reference length; its score is their quotient, reversed as 1 minus that. Zero-one is 1 exactly for equal sentences. RIBES is normalised Kendall tau over the reference positions of the system words identified by unique one-sided contexts, times precision^alpha and brevity^beta, lies in [0,1], and treats empty sentences as defined. TER edits never exceed the Levenshtein distance, never undercut the bag-of-words bound, are 0 only for equal sentences, and one block move costs one edit.',
  quant='all sentence pairs, alpha and beta', why='The dynamic programme and the context search have boundary rows, columns and windows a handful of examples does not reach.',
  files=['src/lib/eval-measure-wer.cc', 'src/lib/eval-measure-ribes.cc', 'src/lib/eval-measure-zeroone.cc', 'src/lib/eval-measure-ter.cc'],
  mech=[('row-major edit distance table', 'src/lib/eval-measure-wer.cc EditDistance'), ('word alignment by context windows and ascending pair count', 'src/lib/eval-measure-ribes.cc CalculateStats')],
  technique=T, note=NOTE + 'Proved: EditDistance equals the recursive Levenshtein function and the metric lemmas about it, WER/zero-one statistics and scores, RIBES range, value formula and soundness of its alignment. Exact RIBES alignments and TER: harness only (bounded).'),
 dict(id='C05', title='MERT finds the exact best point of every line search',
  statement='For an n-best list and a search line, the convex hull tiles the whole line from -max to max and on each piece names a hypothesis whose model score is maximal everywhere on that piece (highest intercept among equal slopes). Forest hulls built with hull sums and products agree with enumerating all derivations, whichever forests are merged and whichever features are active. Line search returns a position inside the allowed range whose corpus score is the best over all pieces of the line that meet the range, with the score at zero as the score before and their difference as the gain. Tuning (MERT by coordinates or random directions, greedy MERT) never lowers the corpus score and reports the score the tuned weights really have; ranges for gradients keep every weight inside its interval.',
  quant='all n-best lists, forests, weights, gradients and ranges', why='Crossings depend on the relative position of all lines at once; tests have two or three hypotheses.',
  files=['src/lib/tuning-example-nbest.cc', 'src/lib/tuning-example-forest.cc', 'src/lib/mert-geometry.cc', 'src/lib/tune-mert.cc', 'src/lib/tune-greedy-mert.cc', 'src/lib/tune.cc'],
  mech=[('sweep over lines by slope', 'src/lib/tuning-example-nbest.cc CalculateConvexHull'), ('hull semiring', 'src/lib/mert-geometry.cc'), ('boundary accumulation', 'src/lib/tune-mert.cc LineSearch')],
  technique=T, note=NOTE + 'Proved: the n-best hull (tiling and domination). Precondition: lines of different slope cross inside the double range. Forest hulls, hull semiring, line search and tuning loops: harness against exhaustive enumeration (bounded).'),
 dict(id='C06', title='Hypergraph construction, copying and appending keep the structure',
  statement='A hypergraph stays well formed under every operation: node and edge ids equal their positions, heads, tails and edge lists refer to members of the same graph, and an edge sits in its head\'s list. Adding a node gives it the next id or the requested free one and refuses an occupied one; a self-loop tail is refused. Copying yields a structurally identical graph that shares no node or edge with the original, for plain and rule graphs, and equality compares all attributes. Appending returns the old node count, leaves old nodes, edges and the appended graph unchanged, and adds an isomorphic image whose references are shifted by the old sizes. The reversed-edge index lists for each node exactly the edges using it; labelled spans prefer the node nearest the root.',
  quant='all hypergraphs and all sequences of adds, copies and appends', why='Every consumer relies on ids, pointers and ownership being consistent for graphs of any shape; tests build two or three fixed graphs.',
  files=['src/lib/hyper-graph.cc', 'src/include/travatar/hyper-graph.h'],
  mech=[('id assignment', 'src/lib/hyper-graph.cc AddNode, AddEdge'), ('pointer refresh through ids', 'src/lib/hyper-graph.cc RefreshPointers, copy constructor, Append'), ('reverse index', 'src/lib/hyper-graph.cc GetReversedEdges')],
  technique=T, note=NOTE + 'Proved: AddNode, AddEdge, AddTail, RefreshPointers, copy constructor, Append, GetReversedEdges, ResetViterbiScores over an explicit heap. Equality, labelled spans, path equality and printing: harness only (bounded).'),
 dict(id='C07', title='Best, n-best and expected derivations are those of the forest',
  statement='For an acyclic hypergraph the Viterbi score of a node is the maximum over all its derivations of the summed edge scores. The n-best list holds exactly the n best derivations (all, if there are fewer) in non-increasing score order, each once and each a complete derivation of the root with its true score; with the uniqueness option it holds the best derivation of each distinct target side, and no target side twice. The target side of a path is obtained by substituting the children for the non-terminals in every factor, and its features are the sum over its edges. Inside-outside normalisation leaves on every edge the log of its expected number of uses under the distribution proportional to exp(score). Edge scores are the inner product of weights and edge features. Sums of log probabilities and softmax are exact whatever the spread of their arguments.',
  quant='all acyclic hypergraphs, scores, weights, list sizes and score vectors', why='Lazy enumeration, memoised recursion and log-space sums depend on the graph shape, ties, rounding and magnitudes no fixed graph covers.',
  files=['src/lib/hyper-graph.cc', 'src/include/travatar/hyper-graph.h', 'src/include/travatar/softmax.h', 'src/lib/cfg-data.cc'],
  mech=[('memoised maximum', 'src/lib/hyper-graph.cc HyperNode::CalcViterbiScore'), ('lazy k-best search', 'src/lib/hyper-graph.cc NbestGetNthPath'), ('memoised log sums', 'src/lib/hyper-graph.cc GetInsideProb, GetOutsideProb, InsideOutsideNormalize')],
  technique=T, note=NOTE + 'Proved (for any acyclic graph): CalcViterbiScore, AddLogProbs, inside, outside and normalisation, ScoreEdges (base-class weights), path features and translations, non-terminal order, labelled spans. The n-best search and Softmax: harness against enumeration of all derivations (bounded).'),
 dict(id='C08', title='Extracted tree-to-string rules are the alignment-consistent ones',
  statement='A parse node is on the frontier exactly if it is a non-terminal, some word under it is aligned, and no target position between its first and last aligned position is aligned to a source word outside it. Minimal rules cut the parse at exactly the frontier nodes: every derivation of fragments between frontier nodes is extracted once, with its tails in source order, and no other. Attaching unaligned target words extends spans only over unaligned words (at most the allowed number on either side of a node, at the top: to the smallest node whose range contains the word) and never lets two children overlap. A composed rule is its parent with the child substituted at the given tail: tails, target placeholders, fragments in source order and summed scores; composition yields every combination within the size limit once. The printed rule lists source fragment, target words and placeholders, score and word alignments of exactly that rule.',
  quant='all parse forests, alignments, target lengths, size limits', why='Which nodes are on the frontier and where null words go depends on the whole alignment; tests use three sentences.',
  files=['src/lib/forest-extractor.cc', 'src/lib/rule-composer.cc', 'src/lib/hyper-graph.cc', 'src/lib/alignment.cc'],
  mech=[('memoised target spans and complement spans', 'src/lib/hyper-graph.cc CalculateTrgSpan, CalculateFrontier'), ('stack of fragments', 'src/lib/forest-extractor.cc ExtractMinimalRules'), ('null attachment', 'src/lib/forest-extractor.cc AttachNullsTop, ExpandNode'), ('substitution of a rule into a rule', 'src/lib/rule-composer.cc ComposeEdge')],
  technique=T, note=NOTE + 'Proved: CalculateTrgSpan, CalculateFrontier (for parses where a node has one complement span), GetTrgCovered, GetSrcAlignments, Contains, AddAlignment, GetSpanLabel, ComposeEdge (including that its target side is the substitution of the child into the parent), AttachNullsTop on one node and all below it, ExpandNode (exactly the admissible attachments). ExtractMinimalRules, AttachNullsExhaustive, BuildComposedEdges and RuleToString: harness (bounded).'),
 dict(id='C09', title='Extracted Hiero phrase pairs and rules are the alignment-consistent ones',
  statement='The extracted phrase pairs are exactly the consistent ones: at least one alignment link inside, no link leaving the pair on either side, both sides within the length limit (source spans end at the last aligned source word), each once. Of the pairs with the same source span those with the shortest target side are kept; from each kept pair come its lexical rule, a rule for every other kept pair inside it, and a rule for every two non-overlapping kept pairs inside it, with the sub-phrases replaced by x0 and x1 in source order on both sides, and all words and links outside them kept. A rule is kept exactly if either side has at least one and at most the allowed number of terminals and no two variables are adjacent on the source side. Links between remaining terminals are renumbered by the position of the terminals among the terminals of their side.',
  quant='all sentence pairs, alignments and limits', why='Consistency depends on every link relative to every span; tests use a few hand-made alignments.',
  files=['src/lib/hiero-extractor.cc', 'src/include/travatar/hiero-extractor.h'],
  mech=[('projection of source spans and extension over unaligned target words', 'src/lib/hiero-extractor.cc ExtractPhrase'), ('substitution of sub-phrases', 'src/lib/hiero-extractor.cc ParseRuleWith1Nonterminals, ParseRuleWith2Nonterminals'), ('renumbering of links', 'src/lib/hiero-extractor.cc HieroRule::ShiftAlignment')],
  technique=T, note=NOTE + 'Proved: ExtractPhrase returns exactly the consistent pairs, the three rule builders give exactly the substituted sides, indices and links, ShiftAlignment, IsRuleValid, overlap and containment tests. The selection loop of ExtractHieroRule and printing: harness against brute force (bounded).'),
 dict(id='C10', title='Rule lookup finds exactly the rules matching the parse forest at each node',
  statement='For every node with edges, the rules applied there are exactly the rules of the table whose source side is the text of a fragment of the forest rooted at that node: one edge chosen at every expanded node, the other nodes taken as words or as variables numbered left to right. Every match gives one edge of the translation forest per rule, whose tails are the variable nodes in order and whose features are those of the rule plus those of the parse edges used. An unknown-word edge per parse edge is added exactly where nothing matched (or everywhere when all nodes get one). The hash table and the trie table give the same result, and a table line with fewer than three columns is refused.',
  quant='all parse forests and rule tables', why='Matching is a recursive search over every combination of edges and cut points; tests look up a handful of trees.',
  files=['src/lib/lookup-table.cc', 'src/lib/lookup-table-hash.cc', 'src/lib/lookup-table-marisa.cc'],
  mech=[('recursive search over states, edges and tails', 'src/lib/lookup-table.cc LookupTable::LookupSrc'), ('partial texts and variables', 'src/lib/lookup-table-hash.cc MatchNode, MatchStart, MatchEnd'), ('edges and unknown rules', 'src/lib/lookup-table.cc TransformGraphSrc')],
  technique=T, note=NOTE + 'Proved: LookupSrc returns exactly the matches (inductively defined over edges and tails) of every node after every given state, with their texts, variable nodes and features; the hash table steps produce exactly the texts the table holds. The virtual step functions are assumed in LookupSrc with the contract that the hash table is proved to meet; feature addition is an uninterpreted function here (its meaning is C01). TransformGraphSrc, table reading and the trie table: harness against brute-force enumeration (bounded).'),
]
NA = []
