"""Source of properties.jsonl; run to regenerate."""
import json
import os
P = []


def p(pid, title, statement, over, text, why, files, mech, observe,
		state=(), hook=None):
	assert len(title) <= 80, (pid, len(title))
	P.append(dict(id=pid, title=title, statement=statement,
			quantifier=dict(over=over, text=text), why_tests_cant=why,
			anchors=dict(files=files,
				mechanism=[dict(name=n, where=w) for n, w in mech],
				state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
				observe_at=observe, hook_needed=hook)))


# ---------------------------------------------------------------- core
p('C01', 'Agenda: best-first, FIFO ties, decrease-key, for any history',
	'After any sequence of insertions, priority changes, deletions, peeks, pops and clears, the agenda holds exactly the keys inserted and not removed, each with its last priority, and its size and truth value agree. Popping or peeking yields an item of minimal priority, the earliest inserted one among equals, and peeking changes nothing.',
	['histories'], 'all operation histories over any keys and priorities, including re-prioritisation, deletion before peeking, duplicates at construction, and reuse after clearing',
	'The unit tests run one fixed usage pattern each (fill, then drain); they never combine deletions or updates with peeking or reuse after clear.',
	['discodop/util.py'], [('lazy deletion by invalidated heap entries', 'discodop/util.py: PyAgenda'), ('insertion counters for ties', 'discodop/util.py: Entry')],
	['public methods of the agenda after every operation'],
	[('heap', 'entries, some invalidated', 'PyAgenda.heap'), ('mapping', 'valid entry per key', 'PyAgenda.mapping')])
p('C02', 'Bit vector and range helpers compute exact set semantics',
	'Counting, scanning for the next member or non-member, iterating, counting contiguous components, computing ranges, union, intersection and subset on bit vectors of any length agree with the finite sets of positions they denote, including at machine-word boundaries and beyond 64 bits.',
	['inputs'], 'all sets of positions (all subsets of small universes, boundary patterns around multiples of 64, random large sets) and all scan positions',
	'The tests check one or two constants per function; none straddles a word boundary or compares the wide and narrow implementations.',
	['discodop/bit.pyx', 'discodop/bit.pxd', 'discodop/bitcount.h', 'discodop/macros.h', 'discodop/grammar.py', 'discodop/tree.py', 'discodop/treetransforms.py'],
	[('single-word bit tricks and multi-word loops', 'discodop/bit.pxd'), ('range iteration', 'ranges, rangeheads, getbits, contsets')],
	['return values of the helpers'])
p('C03', 'Merging, ordered sets and slices behave like their mathematical models',
	'An n-way merge of sorted inputs is the stable sorted sequence of all their elements with equal elements in order of the inputs; an ordered set has the first operand\'s order and set equality; effective slice bounds select exactly the elements Python slicing selects. Text tokenization only inserts or normalises white space: the non-space characters are preserved in order.',
	['inputs'], 'any number of sorted inputs with arbitrary ties and keys; any sequence and slice; any text',
	'One doctest for merge; no tests at all for the others.',
	['discodop/util.py'], [('heap of iterators', 'merge'), ('bounds normalisation', 'slice_bounds'), ('tuple plus frozenset', 'OrderedSet'), ('regular expression rewriting', 'tokenize')],
	['return values'])
# ---------------------------------------------------------------- trees
p('T01', 'Parented trees: parent links, siblings and indices always consistent',
	'After any sequence of tree edits (assigning, inserting, appending, extending, removing, popping, slicing, detaching, pruning), every child names its actual parent and no other node does, and siblings, root, index paths and subtrees derived from these links agree with the actual structure. An edit that would give a node two parents is rejected and leaves every tree unchanged.',
	['histories'], 'all edit histories on any set of parented trees, including failing edits',
	'No unit test edits parented trees; only one construction path is exercised by drawing.',
	['discodop/tree.py'], [('_setparent/_delparent hooks around list mutations', 'ParentedTree')],
	['parent, parent_index, left_sibling, right_sibling, root, treeposition after each edit'],
	[('_parent', 'back link of a node', 'discodop/tree.py: ParentedTree')])
p('T02', 'Tree values: equality, hashing, copying, freezing and indexing agree',
	'Trees are equal exactly when they have the same labels and shape; a deep copy, a frozen copy and a conversion to another tree type are equal in value to the original and independent of later edits; equal frozen trees have equal hashes and can never be modified. Looking up or assigning by an index path addresses the node reached by following the path, and traversals visit each node exactly once in the documented order.',
	['inputs', 'histories'], 'all trees of any tree class, all index paths and traversals',
	'Tests only compare a few parsed trees; hashing, freezing and tree positions are not tested.',
	['discodop/tree.py'], [('list subclassing with label', 'Tree'), ('hash computed on freezing', 'ImmutableTree')],
	['comparison results, hashes, copies after mutation of the original'])
p('T03', 'Bracketed notation: printing and parsing trees are inverse',
	'For every tree and sentence, writing it in bracketed or discontinuous bracketed notation (on one line or pretty-printed) and reading it back gives the same labels, structure, terminal indices and tokens, with parentheses in tokens escaped. Malformed bracketings are rejected rather than silently misread.',
	['inputs'], 'all trees over all labels and tokens, including tokens with brackets, equal signs or quotes; any number of trees in one text',
	'Round trips are tested on the sample treebank only.',
	['discodop/tree.py', 'discodop/treebank.py'], [('tokenising parser', 'Tree.parse, DiscTree, brackettree, discbrackettree'), ('escaping', 'escape, unescape, writebrackettree, writediscbrackettree')],
	['re-parsed trees and tokens'])
p('T04', 'Tree drawings show every node and token exactly once, consistently',
	'A drawing of a tree, continuous or discontinuous, contains every constituent label and every token exactly once, places terminals left to right in sentence order on one line, and draws lines connecting each node only with its own children.',
	['inputs', 'configurations'], 'all (discontinuous) trees, tokens, highlighting and abbreviation settings',
	'Tests draw a few fixed trees and do not check the picture.',
	['discodop/tree.py'], [('grid layout', 'DrawTree.nodecoords'), ('text rendering', 'DrawTree.text'), ('table rendering', 'frag/brackets tables')],
	['text output'])
# ------------------------------------------------------- transformations
p('B01', 'Binarization is reversible, bounded in arity and preserves yields',
	'For every tree and every binarization setting (direction, horizontal and vertical markovization, head annotation, fan-out marking, artificial final nodes), the binarized tree has at most two children per node, dominates the same terminals in the same order, and undoing binarization gives back exactly the original tree.',
	['inputs', 'configurations'], 'all trees without marker symbols in their labels, all binarization settings',
	'Doctests and a sample treebank exercise few settings; unusual combinations (reverse markovization, filters, direction switch, threshold) are untested.',
	['discodop/treetransforms.py'], [('artificial node insertion', 'binarize'), ('removal of nodes with markers', 'unbinarize'), ('direction switch, marktypes', 'binarize')],
	['binarized and unbinarized trees'])
p('B02', 'Markovized labels encode exactly the declared context',
	'The label of every artificial node introduced by binarization consists of the parent label, exactly the requested number of sibling labels in the requested order and direction relative to the head, and the requested number of ancestors, so that two artificial nodes share a label exactly when they share this context.',
	['inputs', 'configurations'], 'all trees and all values of the markovization parameters',
	'A handful of doctests show one label each.',
	['discodop/treetransforms.py'], [('sibling window and ancestor list', 'binarize, labelfun')], ['labels of binarized trees'])
p('B03', 'Splitting discontinuous nodes is reversible and yields continuous trees',
	'Splitting a discontinuous tree into a continuous one (with or without component indices) produces a tree in which every node is continuous, over the same terminals in order, and merging restores the original tree whenever the labels identify the components; raising produces a continuous tree with the same multiset of labels apart from those documented.',
	['inputs', 'configurations'], 'all discontinuous trees with any labels, with and without component marks',
	'Tests round trip the sample treebank and a few fixed trees.',
	['discodop/treetransforms.py'], [('component splitting', 'splitdiscnodes'), ('merging', 'mergediscnodes'), ('raising', 'raisediscnodes')], ['split, merged and raised trees'])
p('B04', 'Fan-out marking, ordering and yields agree with the terminals dominated',
	'For every tree, the reported yield bit sets, fan-outs, discontinuity tests, continuous ranges and gap degree are those of the set of terminals each node dominates; canonical ordering sorts children by leftmost terminal without changing dominance; adding and removing fan-out markers is the identity.',
	['inputs'], 'all discontinuous trees, including sentences beyond 64 tokens',
	'Doctests show single examples.',
	['discodop/treetransforms.py', 'discodop/tree.py', 'discodop/grammar.py'], [('addbitsets, fastfanout', 'treetransforms.py'), ('canonicalize, disc, addfanoutmarkers, removefanoutmarkers', 'treetransforms.py')], ['function results and transformed trees'])
p('B05', 'Unary collapsing and preterminal introduction are reversible',
	'Collapsing unary chains leaves a tree without the unary chains it promises to collapse, introducing preterminals leaves every terminal with a preterminal of its own, both keep the terminals in order, and undoing the collapse restores the original tree.',
	['inputs', 'configurations'], 'all trees with unary chains of any length anywhere, all settings',
	'One doctest each.',
	['discodop/treetransforms.py'], [('label joining', 'collapseunary, expandunary? (treetransforms)'), ('introducepreterminals', 'treetransforms.py')], ['transformed trees'])
p('B06', 'Optimal binarization has minimal fan-out or parsing complexity',
	'Optimal binarization of a discontinuous constituent returns a complete binarization of it whose score (maximum fan-out, or parsing complexity) is minimal among all binarizations of the allowed form, and undoing it restores the tree.',
	['inputs', 'configurations'], 'all constituents with up to six children over all arrangements of discontinuous yields; head-driven and unrestricted settings',
	'Tests check six fixed constituents for one score.',
	['discodop/treetransforms.py'], [('agenda search over partial binarizations', 'optimalbinarize, minimalbinarization'), ('fanout, complexity scores', 'treetransforms.py')], ['score of returned binarization'])
p('B07', 'Punctuation attachment strategies never lose tokens or break trees',
	'Moving punctuation (to an appropriate constituent, beside balanced partners, to the root, or restoring it) keeps every token at its position, keeps the remaining constituents and their non-punctuation yields, and results in a well-formed tree; removal deletes exactly the punctuation tokens and the constituents left empty, and renumbers the remaining tokens consecutively.',
	['inputs', 'configurations'], 'all trees and placements of punctuation, including at sentence boundaries, nested quotes and sentences of only punctuation',
	'Tests check fixed trees, each for one strategy.',
	['discodop/punctuation.py', 'discodop/treebanktransforms.py', 'discodop/treetransforms.py'], [('punctremove, punctprune, punctlower, punctraise, balancedpunctraise, punctroot', 'discodop/punctuation.py')], ['resulting trees and sentences'])
p('B08', 'Terminal deletion removes exactly what is asked and keeps indices valid',
	'Removing terminals by a criterion, or removing empty elements, deletes exactly the matching tokens and the constituents that become empty, keeps all other constituents with their order, and renumbers the remaining terminals to the positions of the remaining tokens; restoring or ptb-style trace removal yields a tree whose terminals cover the sentence exactly once.',
	['inputs'], 'all trees and subsets of terminals to be deleted',
	'No direct tests.',
	['discodop/treetransforms.py', 'discodop/treebank.py', 'discodop/treebanktransforms.py'], [('removeterminals, removeemptynodes', 'discodop/treetransforms.py')], ['resulting trees and sentences'])
p('B09', 'Head rules pick exactly one head; dependencies form a rooted tree',
	'With any head rules every nonterminal of every tree gets exactly one head child, the one the rules prescribe (first match in rule priority and search direction, else the default), and the derived dependency structure is a single-rooted tree in which every token has exactly one head and arcs agree with the constituent heads.',
	['inputs', 'configurations'], 'all trees and all head rule tables',
	'Head rules are exercised on a sample treebank without checking the outcome.',
	['discodop/heads.py', 'discodop/treebank.py'], [('rule lookup', 'headfinder, applyheadrules, markhead'), ('percolation', 'dependencies, writedependencies')], ['marked heads and dependency output'])
p('B10', 'Treebank transformations with an inverse are undone by it',
	'Every named treebank transformation changes trees as documented: state splits only extend labels, of exactly the constituents they describe; structural transformations introduce exactly the nodes they describe, and all keep the tokens covered and their order. Applying reversible transformations and then reversing them in opposite order gives back the labels, structure and functions of the original tree (for trees that do not already look transformed); the relational-realizational transform is undone by its inverse.',
	['inputs', 'configurations'], 'all trees, all sequences of named transformations that declare an inverse',
	'Tests check one punctuation transformation.',
	['discodop/treebanktransforms.py'], [('transform, reversetransform, expandpresets', 'discodop/treebanktransforms.py')], ['transformed and restored trees'])
p('B11', 'The D-level of a tree is the highest level whose condition holds',
	'The measure of syntactic complexity of a (Dutch, Alpino) tree is a number from 0 to 7: the highest level whose condition holds anywhere in the tree, i.e., 7 more than two finite clauses not counting coordination, 6 a clause modifying or being the subject, 5 a subordinating conjunction other than dat, 4 a non-finite clause with overt subject as object, 3 a clause as object, comparison, 2 coordination, 1 a non-finite complement coindexed with the subject, 0 otherwise; computing it does not change the tree.',
	['inputs'], 'all annotated trees, including secondary edges',
	'No tests.',
	['discodop/treebanktransforms.py'], [('dlevel, morphfeats, hassecedge', 'discodop/treebanktransforms.py')], ['returned level'])
# -------------------------------------------------------------- treebanks
p('D01', 'Every treebank format reads back exactly what was written',
	'For each supported format, writing any tree and sentence with their identifiers and reading the result gives back an equal tree with the same tokens, labels, functional and morphological annotation and identifiers, as far as the format represents them; converting through a chain of formats loses only what the poorest format cannot represent.',
	['inputs', 'configurations'], 'all trees (continuous for bracket formats), token and label strings and annotation the format can represent; all format pairs',
	'Tests read one sample file per format, and never compare all formats with one another.',
	['discodop/treebank.py'], [('exporttree/writeexporttree, writetree, exportparse, tigerxml, alpino, ftb readers', 'discodop/treebank.py')], ['re-read trees, sentences, ids'])
p('D02', 'Incremental reading: segmentation and recovery independent of chunking',
	'Reading trees incrementally from lines of text yields the same sequence of trees, sentences and remaining text regardless of blank lines, comments, and trees spanning or sharing lines; each complete tree is reported exactly once, and incomplete or unbalanced input is reported without losing later trees.',
	['inputs', 'histories'], 'all texts mixing the supported formats, segmented into lines arbitrarily',
	'One test with a fixed text.',
	['discodop/treebank.py'], [('state machine per format', 'incrementaltreereader, segmentbrackets, segmentexport, segmentalpinoxml')], ['yielded trees'],
	[('format detection state', 'the format tried and lines buffered', 'incrementaltreereader')])
p('D03', 'Corpus readers give the same sentences for every access path',
	'A corpus read with a slice of sentence numbers or identifiers, from one or several files, as a whole or iterated, gives the same trees, sentences, blocks and identifiers in corpus order, each exactly once.',
	['inputs', 'configurations'], 'all corpora and ranges of sentences, access methods',
	'Tests read whole corpora.',
	['discodop/treebank.py'], [('CorpusReader itertrees, trees, sents, blocks', 'discodop/treebank.py')], ['results of reader methods'])
p('D04', 'Function tags and morphology: label encodings keep exactly what is asked',
	'Each way of handling function tags and morphology (leave, add, replace, between, remove) produces the documented label on every node, keeps structure and tokens, and for modes that keep the information it can be recovered from the label.',
	['inputs', 'configurations'], 'all trees with any combination of missing and present tags, all modes',
	'Sample corpora only, with no assertion on labels.',
	['discodop/treebank.py', 'discodop/functiontags.py'], [('handlefunctions, handlemorphology', 'discodop/treebank.py')], ['labels of resulting trees'])
# --------------------------------------------------------------- grammars
p('G01', 'Extracted grammar rules regenerate exactly the constituents of the tree',
	'For every (discontinuous) tree and sentence, the extracted productions are one per node, each production\'s yield function applied to the spans of the children gives exactly the span of the parent, fan-outs agree with the number of gaps, and composing the productions regenerates the tree and the sentence.',
	['inputs'], 'all discontinuous trees over sentences of any length',
	'Doctest on one tree; parsing tests only on a small sample.',
	['discodop/grammar.py', 'discodop/_grammar.pxi'], [('lcfrsproductions, rangeheads, yield functions', 'discodop/grammar.py')], ['list of productions'])
p('G02', 'Treebank grammars give each rule its exact relative frequency',
	'The grammar induced from any treebank contains exactly the rules of its trees, each weighted by the number of its occurrences and the frequency of its left-hand side, so that the weights of the rules of each nonterminal sum to one; the lexicon likewise.',
	['inputs'], 'all treebanks', 'Tests check parse results on one sample, not weights.',
	['discodop/grammar.py'], [('treebankgrammar, sumrules, sortgrammar', 'discodop/grammar.py')], ['returned rules and weights'])
p('G03', 'DOP reduction: derivation probabilities equal the tree fragment model',
	'In the grammar obtained by the reduction of all subtrees, the total weight of derivations of each fragment of each tree equals its probability under the chosen estimator computed from the fragments of the treebank, the number of fragments per node is exact, and all addressed nodes map back to the original labels.',
	['inputs', 'configurations'], 'all treebanks, the estimators of relative frequency, equal weights and others offered',
	'Tests compare only that parsing works on a sample.',
	['discodop/grammar.py'], [('dopreduction, nodefreq, TreeDecorator', 'discodop/grammar.py')], ['returned rules, weights and fragment counts'])
p('G04', 'Fragment grammars reconstruct the fragments they were built from',
	'Every fragment added to a fragment grammar is flattened into rules from which it is recovered exactly, distinct fragments never share a flattened rule, the weights of the rules given a root label sum to the total for that label, and substituting recovered fragments for the flattened nodes of a derivation gives the derived tree.',
	['inputs', 'configurations'], 'all sets of fragments with any counts, sites and terminals, binarized or not, all estimators',
	'One test flattens a fixed set.',
	['discodop/grammar.py', 'discodop/disambiguation.pyx'], [('dopgrammar/doubledop, flatten, nodefreq, UniqueIDs', 'discodop/grammar.py'), ('recoverfragments', 'discodop/disambiguation.pyx')], ['rules, backtransform table, recovered trees'])
p('G05', 'Grammar files: writing, reading and merging preserve rules and weights',
	'Grammars written as text and read back (by the parser\'s grammar object, the random generator or the binary cache) have the same rules, lexical entries, weights and yield functions; converting a weight to text and back is exact; merging grammars averages the weights of each rule over the files; summary statistics count what is there.',
	['inputs', 'configurations'], 'all grammars, label and word strings allowed in files, weight notations (fractions, decimals, hexadecimal)',
	'Round trips are performed on one sample without comparing the result.',
	['discodop/grammar.py', 'discodop/_grammar.pxi', 'discodop/gen.py'], [('writegrammar, splitweight, convertweight, merge, grammarinfo, grammarstats', 'discodop/grammar.py'), ('Grammar', 'discodop/containers.pyx')], ['file contents and re-read grammars'])
p('G06', 'Random generation only yields derivable sentences with their probability',
	'Every tree and sentence generated from a grammar is derivable with it, its reported probability is the product of the rule probabilities used, and every rule of the grammar with non-zero weight can be used, including all lexical rules of every accepted input format.',
	['inputs', 'schedules'], 'all (LCFRS) grammars in all supported input formats, all random choices',
	'One test generates one sentence from a tiny grammar without checking it.',
	['discodop/gen.py'], [('parse_bitpar, parse_plcfrs, gen, chooserule', 'discodop/gen.py')], ['generated trees, sentences and probabilities'],
	[('random choices', 'sequence of rules chosen', 'discodop/gen.py')])
p('G07', 'Tree-adjoining grammars: splits are undone by adjoining, exact reduction',
	'Splitting an elementary tree into an initial and an auxiliary tree is undone by adjoining one to the other, and exactly the splits at recurring labels are made. The context-free reduction of weighted initial and auxiliary trees derives exactly the trees that these compose by substitution and (off-spine) adjunction, each derivation with the product of the weights of the elementary trees used (without packed addresses); the grammar made from a treebank contains its productions with their frequencies and the trees split from its recurring lexicalized fragments.',
	['inputs'], 'all sets of (continuous, binarized) initial and auxiliary trees, all treebanks',
	'One doctest shows the split of one tree; the reduction is not tested.',
	['discodop/grammar.py'], [('inducetagfromtsg, ostagreduction, doubleostagfromtsg, SpinedTreeDecorator', 'discodop/grammar.py')], ['elementary trees, rules and lexicon'])
# ------------------------------------------------------------- evaluation
p('E01', 'Tree edit distance is the minimal cost of editing one tree to another',
	'The reported distance equals the minimum number of edit operations over all edit scripts between the two trees, it is zero exactly for equal trees, symmetric, obeys the triangle inequality, and the reported script transforms one tree into the other at that cost; both algorithms agree.',
	['inputs'], 'all pairs of ordered labelled trees', 'Tests compare a few fixed pairs.',
	['discodop/treedist.py'], [('Zhang-Shasha dynamic programming', 'treedist'), ('newtreedist with memo', 'newtreedist')], ['distance and script'])
p('E02', 'Bracketing scores equal their definition on every pair of trees',
	'Precision, recall, F-score, exact match, tag and function tag scores of candidate trees against gold trees, their totals, summaries and tables of errors equal the ratios of matching labelled spans among what remains after applying the evaluation parameters (ignored or equivalent labels and words, only discontinuous brackets, length cutoff), are 100% for identical trees, lie between 0 and 100, and do not depend on the order of sentences.',
	['inputs', 'configurations'], 'all pairs of trees over the same sentence and all parameter settings (deleted labels, equal labels, cutoffs, disconly)',
	'A sample pair of files is evaluated without checking numbers.',
	['discodop/eval.py'], [('bracketings, TreePairResult, EvalAccumulator, transform', 'discodop/eval.py')], ['scores'])
p('E03', 'Other metrics: leaf ancestor, dependency and edit distance scores',
	'The leaf-ancestor score, the edit distance of lineages, the normalized tree edit distance, unlabeled dependency accuracy, means, span notation, token alignment and equivalence classes equal their definitions on every pair of trees and in the totals over a corpus, are maximal exactly when what they compare is identical, and are bounded.',
	['inputs'], 'all pairs of trees over one sentence', 'Not tested beyond running.',
	['discodop/eval.py'], [('leafancestorpaths, edit distance, alignsent, mean, harmean, intervals', 'discodop/eval.py')], ['scores'])
# ---------------------------------------------------------------- parsing
p('P01', 'Context-free chart: exactly the derivable constituents, best scores',
	'The chart for a sentence and probabilistic context-free grammar contains a constituent exactly when it is derivable bottom-up over its span with the given lexical and tag constraints, with exactly the rule applications that derive it, and the recorded best score is the maximum over its derivations; a parse is reported exactly when the sentence is derivable.',
	['inputs', 'configurations'], 'all grammars with binary, unary (also cyclic) and lexical rules, all sentences, dense and sparse charts, all beam-free settings',
	'Tests parse a few sentences with a toy grammar and never compare against an independent derivation count.',
	['discodop/pcfg.pyx', 'discodop/containers.pyx'], [('CKY loops, unary agenda', 'discodop/pcfg.pyx'), ('DenseCFGChart, SparseCFGChart', 'discodop/pcfg.pyx')], ['chart items, edges, probabilities'],
	[('chart', 'items, edges, inside/Viterbi scores', 'discodop/containers.pxd: Chart')])
p('P02', 'Discontinuous chart: exactly the derivable spans, best scores first',
	'The chart of the discontinuous parser contains an item exactly when the yield functions of the grammar derive that label over that set of positions from the sentence, each recorded rule application is a valid instance, the best score of the goal is the maximum over derivations, and sentences that are not derivable are rejected.',
	['inputs', 'configurations'], 'all grammars with binary and unary rules of any fan-out and yield function, all sentences including longer than one machine word, exhaustive and first-parse mode',
	'A few sample sentences.',
	['discodop/plcfrs.pyx', 'discodop/containers.pyx'], [('agenda-driven deduction', 'discodop/plcfrs.pyx: parse'), ('yield function concatenation', 'concat')], ['chart items, edges, probabilities'])
p('P03', 'k-best derivations: the k best, each once, in order of probability',
	'For every chart and k, the derivations extracted are pairwise different, valid derivations in the chart, in non-increasing probability equal to the product of their rule weights, and no derivation outside the list is better than one in it; all are found when there are fewer than k.',
	['inputs', 'configurations'], 'all charts (grammars and sentences, ambiguous and cyclic-free) and all k', 'One fixed forest.',
	['discodop/kbest.pyx'], [('lazy k-best with candidate heaps', 'lazykthbest, lazynext, getcandidates')], ['list of derivations and probabilities'])
p('P04', 'Inside and outside scores are sums over exactly all derivations',
	'Inside probabilities equal the sum over all derivations of each constituent, outside probabilities the sum over all contexts, and exactly the constituents whose posterior probability exceeds a given threshold are selected; no posterior exceeds one.',
	['inputs', 'configurations'], 'all grammars without unary cycles, all sentences, tags and thresholds',
	'Not tested directly.',
	['discodop/coarsetofine.pyx', 'discodop/containers.pyx'], [('getinside, getoutside, posteriorthreshold', 'coarsetofine.pyx')], ['chart probabilities, selected items'])
p('P05', 'Coarse-to-fine pruning never removes an allowed constituent, adds none',
	'The whitelist made from a coarse chart has exactly the items that its criterion selects (all items that are part of a complete derivation; all items of the k best derivations; or items with a posterior probability above a threshold; only items of derivations with the required constituents, no blocked constituents), and the chart of the fine grammar consists of exactly the items and edges that can be derived with items that are exempt or whose coarse counterparts are all on the whitelist, with their best probabilities; this includes coarse grammars in which a discontinuous constituent is split into components.',
	['inputs', 'configurations'], 'all coarse and fine grammars, all sentences, thresholds and k, split and mark options',
	'A single sample run.',
	['discodop/coarsetofine.pyx', 'discodop/pcfg.pyx', 'discodop/plcfrs.pyx'], [('prunechart, whitelists, posteriorthreshold', 'coarsetofine.pyx'), ('whitelist checks', 'pcfg.pyx, plcfrs.pyx')], ['fine chart items and edges'])
p('P06', 'Disambiguation maximizes the stated objective over derivations',
	'Each objective (most probable derivation, parse, shortest derivation, and the other objectives offered) returns parse trees of the input sentence whose value is what the objective defines over the extracted derivations, and these are the best ones according to that value; parse trees contain no artificial markers after recovery.',
	['inputs', 'configurations'], 'all fragment grammars, sentences, objectives and k',
	'Not tested beyond running.',
	['discodop/disambiguation.pyx'], [('getderivations, marginalize', 'discodop/disambiguation.pyx')], ['parse trees and values'])
p('P07', 'Compiled grammar objects represent exactly the rules in the file',
	'A compiled grammar lists exactly the rules and lexical entries of the texts it was compiled from (LCFRS or bitpar format, any order; weights of repeated rules added), with probabilities normalised per left-hand side, and rejects texts that are not well formed (conflicting fanouts, start symbol on a right-hand side, unused or undefined labels, non-positive weights); adding rules equals reading all rules at once; switching models, masking rules and incrementing counts affect exactly the requested weights or rules; copies restored from a pickle or binary file have the same rules, numbers, weights and backtransform; lookups of rule numbers and mappings to coarse labels or rules give exactly the matching rules.',
	['inputs', 'histories', 'configurations'], 'all grammar texts; all sequences of switching, masking, adding and serialising',
	'Only used indirectly.',
	['discodop/containers.pyx', 'discodop/_grammar.pxi'], [('Grammar.addrules, switch, setmask, tobinfile/frombinfile, __reduce__', 'discodop/containers.pyx')], ['rule listings and parse results'])
p('P08', 'Parser pipeline: every stage yields a tree over the input tokens',
	'For any sentence, each stage of the parsing pipeline yields one tree whose terminals are exactly the input tokens, with labels free of internal markers. When a stage has a parse of the sentence, it is the best derivation according to the grammar extracted from the treebank (for grammars of fragments or reranking: a tree of the same language or one of the candidates), transformed back; without limits on pruning the stage finds a parse whenever its grammar has one. The first stage without a parse combines analyses of the largest parts of the sentence, and later stages without one reuse the tree of the most recent stage that had one and say so. Storing the grammars and reading them back gives the same results.',
	['inputs', 'configurations', 'histories'], 'all treebanks, sentences of known and unknown words (with or without tags), sequences of stages with their settings, and outcomes of each stage',
	'Only a full experiment on a sample.',
	['discodop/parser.py', 'discodop/runexp.py', 'discodop/grammar.py', 'discodop/kbest.pyx'], [('Parser.parse, postprocess, noparse, readgrammars', 'discodop/parser.py'), ('getgrammars, dobinarization, getposmodel', 'discodop/runexp.py'), ('partitionincompletechart', 'discodop/kbest.pyx')], ['results of each stage: tree, score, derivation, whether it is a parse', 'grammar files'],
	[('stages', 'parse forests, most recent parse, partial parse', 'Parser.parse')])
p('P09', 'Outside estimates never exceed the actual cost: best-first search stays exact',
	'The estimate for an item is a lower bound on the cost of completing it to a parse, in every sentence of up to the given length: the PCFG (SX) estimate is exactly the lowest cost over all sentences in which the label can appear with that many words to its left and right, and the LCFRS (SXlrgaps) estimate the lowest cost given the length, the words outside and the words in gaps, as far as the yield functions determine where words are. A search guided by estimates hence returns a parse with the same (best) probability as without; an exhaustive search has every constituent and derivation that is part of a complete parse, once, with its probability, and the same k-best derivations; sentences longer than the estimates cover are parsed as without them.',
	['inputs', 'configurations'], 'all grammars, sentences and estimate lengths', 'Not exercised by the test suite: the code does not even run with the installed numpy.',
	['discodop/estimates.pyx', 'discodop/plcfrs.pyx'], [('getestimates, getpcfgestimates', 'discodop/estimates.pyx'), ('use of estimates', 'discodop/plcfrs.pyx: parse_main')], ['tables of estimates', 'charts, parses and k-best derivations with and without estimates'])
# ------------------------------------------------------- fragments, search
p('F01', 'Fragment extraction: exactly the maximal common fragments, counted exactly',
	'For every pair of trees compared, exactly the maximal connected fragments that they have in common are returned, each once, plus (when asked) all fragments within the requested depth and number of frontiers; frequencies, relative frequencies and indices are the exact number and places of occurrence in the treebank that is documented to be counted (in approximate mode: of occurrences as maximal fragment); slices, adjacency, the two-terms restriction, match limits and looking up given fragments select as documented; trees are binarized on reading as documented; results do not depend on the number of processes, format of the input, or other treebanks in the same batch.',
	['inputs', 'configurations', 'schedules'], 'all pairs of (discontinuous) trees and treebanks, exact and approximate counting, complement and cover settings, command line options, numbers of processes',
	'Test compares only totals on one sample.',
	['discodop/_fragments.pyx', 'discodop/fragments.py'], [('fast tree kernel', 'extractfragments'), ('exact counts by indices', 'exactcounts, exactcountsslice'), ('given fragments', 'completebitsets'), ('cover fragments', 'allfragments'), ('incremental binarization', 'readtree'), ('work splitting', 'fragments.py: workload'), ('command line', 'fragments.py: main, regular, batch, printfragments')], ['fragments with counts or indices'])
p('S01', 'Treebank search: results equal a sequential scan, however evaluated',
	'The matches, counts and matching sentences returned by a search equal those of testing the query on each sentence in order, independent of caching, subset of files, limits and parallel evaluation, and limits return a prefix.',
	['inputs', 'histories', 'configurations'], 'all corpora, queries, ranges and sequences of repeated queries',
	'Not tested.',
	['discodop/treesearch.py'], [('FilterCache, slicing, worker pool', 'discodop/treesearch.py')], ['search results'],
	[('cache', 'results of earlier queries', 'CorpusSearcher.cache')])
p('L01', 'Unknown word models: every token is covered and mass is normalised',
	'Statistics of an unknown word model are exact; replacing rare words by signatures keeps known words and maps every token of any sentence to something the lexicon of the grammar can tag; signatures depend only on the form, position and known words as documented, and the smoothed lexical rules have the observed frequencies plus the documented pseudo-frequencies.',
	['inputs', 'configurations'], 'all tagged corpora, thresholds and word forms', 'Only run on a sample.',
	['discodop/lexicon.py'], [('getunknownwordmodel, replaceraretrainwords, unknownword4/6/base/ftb, simplesmoothlexicon', 'discodop/lexicon.py')], ['models, replaced sentences, signatures'])

if __name__ == '__main__':
	with open(os.path.join(os.path.dirname(os.path.dirname(
			os.path.abspath(__file__))), 'properties.jsonl'), 'w') as out:
		for a in P:
			out.write(json.dumps(a) + '\n')
	print(len(P))
