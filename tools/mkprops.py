#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements stay short and uniform)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"observe_at": observe} if observe else {}),
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     hook_needed=None)))

M="src/model.rs"; L="src/lattice.rs"; T="src/tokenizer.rs"; R="src/trie.rs"; PR="src/processor.rs"; LIB="src/lib.rs"
CLI="src/cli.rs"; PY="bindings/python/src/lib.rs"

p("C01","Encoding loses nothing: the ids spell the processed text",
  "Whenever encoding succeeds, the byte values of the returned ids, concatenated in order, are exactly the processed input: no byte is skipped, repeated, reordered or attributed to another token. This holds for every vocabulary, every text and every dropout.",
  ["inputs","configurations"],"every vocabulary, input text and dropout value",
  "The tests encode three fixed strings with tiny vocabularies; the claim is over all vocabularies, texts and dropout draws.",
  [M,R],[("segmentation table over prefix lengths, filled from prefix-search hits","Model::encode"),("backtracking from the end to position 0, then reversal","Model::encode"),("prefix search yields the id and length stored for exactly the bytes consumed","TrieIterator::next")],
  ["Model::encode","Tokenizer::encode"])
p("C02","Encoding without dropout returns a best-scoring segmentation",
  "With dropout 0, the returned segmentation has the highest total token score among all segmentations of the text into vocabulary tokens. Encoding reports a no-path error exactly when no segmentation exists.",
  ["inputs","configurations"],"every vocabulary with finite scores and every text",
  "One fixed three-letter text is checked; optimality compares against all segmentations.",
  [M,R],[("a position's entry is replaced iff it has none yet or the new path scores strictly more","Model::encode"),("unreachable positions are skipped and reported when met while backtracking","Model::encode")],["Model::encode"])
p("C03","Encoding and decoding are deterministic and leave the tokenizer unchanged",
  "With dropout 0, the result of encoding, decoding or looking up depends only on the tokenizer and the arguments: randomness is consulted only for a positive dropout, and no call on a shared tokenizer changes it or any other shared state. Concurrent and repeated calls therefore agree.",
  ["inputs","schedules","histories"],"every sequence and interleaving of calls on one tokenizer",
  "A test can only observe a few schedules and a few repetitions.",
  [M,T,R],[("shared-reference API over data without interior mutability","Tokenizer, Model, Trie"),("random draw guarded by dropout > 0","Model::encode, Model::populate_nodes")])
p("C04","Dropout never removes a single-byte token",
  "Dropout only ever leaves out tokens of two or more bytes, at encoding and when a lattice is populated, so a vocabulary with all 256 bytes can always be segmented. A dropout of 0 removes nothing and a dropout of 1 or more removes every longer token.",
  ["inputs","configurations"],"every text, vocabulary, dropout value and random draw",
  "The dropout test only tries values 1.0 and 0.5 on one text, at one of the two places.",
  [M],[("candidate acceptance condition","Model::encode"),("node insertion condition","Model::populate_nodes")])
p("C05","Decoding concatenates token values in order and rejects unknown ids",
  "Decoding yields the values of the given ids, concatenated in order, with the text between special tokens post-processed and special-token texts included exactly when asked for. An id beyond the vocabulary is reported as out of bounds whatever its position, and decoding never panics.",
  ["inputs"],"every id sequence, with and without special tokens",
  "The only decode test round-trips one string without special or invalid ids.",
  [M,T],[("bounds check before indexing, error naming the offending id","Model::decode"),("split at ids at or past the base vocabulary, rest resumed after it","Tokenizer::decode")])
p("C06","Id and token lookups are total and mutually consistent",
  "For every id the tokenizer answers without panicking; an id is a base token, a special token or neither, never two of these, and the type predicates agree with the id-to-token lookups. Looking up the token of an id of a unique token gives the id back.",
  ["inputs","histories"],"every 32-bit id and byte string, in every reachable tokenizer state",
  "No test calls the lookup functions.",
  [T,M],[("range split at the base vocabulary size","Tokenizer::is_base, is_special, id_to_*"),("maps from token to id","token_to_id, base_token_to_id, special_token_to_id")])
p("C07","Special-token ids follow the base vocabulary in registration order",
  "A special token's id is the base vocabulary size plus its registration index, the same in encoding, decoding and every lookup, also after further base or special tokens are added. Registering a special token twice changes nothing.",
  ["inputs","histories"],"every sequence of registrations, additions and lookups",
  "Tests never register special tokens on a tokenizer, let alone mix registrations with lookups.",
  [T],[("map and list of special tokens extended together","Tokenizer::add_special_tokens"),("base vocabulary size added or subtracted at use","Tokenizer::encode, decode, special_token_to_id, id_to_special_token, is_special")],
  None,[("special_tokens","registration order",T),("special_tokens_map","text to registration index",T)])
p("C08","The model's three indexes always describe the same vocabulary",
  "After construction and after every addition, the id list, the token-to-id map and the prefix index describe the same tokens under the same ids, and prefix search returns exactly the vocabulary tokens that start the given bytes, with their ids and byte lengths, shortest first.",
  ["inputs","histories"],"every vocabulary and every sequence of additions",
  "Tests build a few models and never add tokens or query the indexes.",
  [M,R],[("every mutator updates list, map and trie with the same id","Model::from, Model::add_tokens"),("insertion walks or creates one child per byte and stores at the end","Trie::push"),("search descends one child per byte and yields stored data","TrieIterator::next")],
  None,[("vocab","tokens by id",M),("token_to_ids","bytes to id",M),("trie","bytes to id and length",M)])
p("C09","Special-token splitting partitions the text and always terminates",
  "Splitting a text at special tokens yields consecutive pieces that concatenate to the text, whose special pieces are exactly registered special tokens at their leftmost occurrence, and whose other pieces contain none. It terminates for every text and every set of special tokens, including an empty one.",
  ["inputs","configurations"],"every text and every list of special tokens",
  "The tests use five short ASCII strings and never an empty, overlapping or multi-byte special token.",
  [T],[("cursor advanced by the length of the yielded piece","SpecialTokenSplitter::next")])
p("C10","Batch calls equal the per-item calls, in order",
  "Each batch operation returns, for every item and in the order given, exactly what the single-item operation returns for it with the same options. It fails if and only if some item fails.",
  ["inputs","schedules"],"every batch, and every way the pool schedules it",
  "No test calls a batch function.",
  [T,PY],[("order-preserving parallel map over the single-item method","Tokenizer::encode_batch, encode_ordinary_batch, decode_batch"),("bindings forward to the batch methods","PyTokenizer")])
p("C11","Processors run in order on the way in, in reverse on the way out",
  "Every piece of ordinary text passes through each processor's forward step in configured order before it is segmented, and decoded text through each processor's backward step in reverse order; special tokens bypass them. CRLF processing turns every CRLF into LF and changes nothing else, and each Unicode form applies its own normal form.",
  ["inputs","configurations"],"every processor list and text",
  "No test configures a processor.",
  [T,PR],[("left fold over processors","Tokenizer::encode, encode_ordinary"),("fold over reversed processors","Tokenizer::decode"),("forwarding by variant","ProcessorWrapper")])
p("C12","A saved tokenizer loads back with the same contents",
  "Everything a tokenizer consists of - version, special tokens, processors, vocabulary - is written under the names the reader expects, each into and from the field it belongs to, in order. Any tokenizer that was written can be read back, and files with an unknown version or field, or without a version, are rejected.",
  ["inputs","configurations"],"every tokenizer and every document",
  "No test writes or reads a tokenizer.",
  [T],[("writer's field table","Serialize for Tokenizer"),("reader's field table and version check","TokenizerVisitor::visit_map"),("owned string types on the reading side","TokenizerVisitor::visit_map")])
p("C13","A vocabulary entry survives a write and a read",
  "A token's bytes, score and keep flag come back unchanged from its serialized form; bytes that are not UTF-8 are encoded reversibly and marked as such. Unknown or missing fields are rejected.",
  ["inputs"],"every byte string, finite score and flag",
  "One ASCII token with score 0.5 is round-tripped; keep, encoded bytes and unusual scores never are.",
  [LIB],[("writer: UTF-8 or base64 with marker","Serialize for ScoredToken"),("reader: decoding chosen by the marker","Deserialize for ScoredToken")])
p("C14","Processor names mean the same thing when written, read and configured",
  "Each processor is written with its own type tag and normal-form name, and reading that document yields the same processor; the command line maps each processor name to the processor of that name. An entry carrying another or unknown type or form is rejected.",
  ["inputs","configurations"],"every processor, document entry and command-line name",
  "No test serializes a processor or parses a processor name.",
  [PR,CLI],[("writer tables","Serialize for CrlfProcessor, UnicodeProcessor"),("reader tables","Deserialize for CrlfProcessor, UnicodeProcessor"),("name table","load_processors")])
p("C15","Only the requested output is written, and only once complete",
  "The library and tool write no file except the path the user asked to save to, at most once per run, and only after the complete contents have been computed successfully. Saving reports every failure to its caller.",
  ["inputs","fault_sequences"],"every command and option set, every failing step",
  "The tests never save anything.",
  [T,CLI],[("serialize first, then one write, errors propagated","Tokenizer::save"),("output written by the last step of each command","*_cmd")])
p("C16","Python calls surface every failure as an exception",
  "Every failure of the underlying library reaches Python as an exception - tokenizer errors as TokenGeeXError, I/O failures of save as OSError - and none is swallowed or turned into a default value or a panic. The exception type can be imported from the module.",
  ["inputs","fault_sequences"],"every binding and every failing call",
  "The repository has no tests of the bindings.",
  [PY],[("map_err into the exception type on every fallible call","PyTokenizer methods"),("module registration","tokengeex_module")])
p("C17","Each Python method does what the same-named library method does",
  "Every method of the Python tokenizer forwards its arguments, unchanged and in their roles, to the library method of the same name and returns its result. The published type stub lists the same methods with the same parameters.",
  ["inputs"],"every binding and argument",
  "The repository has no tests of the bindings.",
  [PY,"bindings/python/tokengeex.pyi"],[("one delegation per method","PyTokenizer methods"),("declarations","tokengeex.pyi")])
p("C18","Pickling a Python tokenizer preserves it",
  "A Python tokenizer can be created empty, its pickled state is its complete serialized form, and restoring that state yields an equivalent tokenizer or an exception.",
  ["inputs"],"every tokenizer",
  "The repository has no tests of the bindings.",
  [PY],[("serialize the tokenizer into the state","__getstate__"),("replace the tokenizer by the deserialized state","__setstate__"),("constructor used by unpickling","#[new]")])
p("C19","Tokens marked keep survive pruning and filtering",
  "No pruning or filtering step removes a token marked keep, except filtering when forced. Both leave the mark of every surviving token as it was.",
  ["inputs","configurations"],"every model, sample set and option set",
  "Neither pruning nor filtering is tested.",
  ["src/prune.rs","src/filter.rs"],[("keep short-circuits removal","run_m_step, prune_vocab, VocabularyFilter::filter")])
p("C20","Filtering removes only low-scoring tokens, and never too many",
  "Filtering never leaves fewer tokens than the requested size, never removes a token scoring at least the minimum, removes lowest-scoring tokens first, and removes every eligible token the size bound allows. It changes no surviving token, and without a minimum score removes nothing.",
  ["inputs","configurations"],"every model, size, minimum score and force flag",
  "Filtering is not tested.",
  ["src/filter.rs"],[("ascending order and removal budget","VocabularyFilter::filter")])
p("C21","Pruning only removes tokens, down to the requested size and no further",
  "Pruning never adds, duplicates or alters a token (scores are re-estimated), and once the vocabulary is at or below the requested size it makes no further pass. The size it prunes to in a pass is never below the requested size, and it keeps the candidates whose removal loses most.",
  ["inputs","configurations"],"every model, sample set and option set",
  "Pruning is not tested, apart from a helper function's output being printed.",
  ["src/prune.rs"],[("loop until size reached","ModelVocabularyPruner::prune"),("target bounded below","prune_vocab"),("values copied from the current model","run_m_step, prune_vocab")])
p("C22","Merging only appends new concatenations within its limits",
  "Merging leaves existing tokens and their ids as they are and appends at most the requested number of tokens, each the concatenation of two existing tokens seen next to each other, new to the vocabulary, no longer than the maximum, accepted by the allow pattern, scored from its two parts, and not marked keep. Within an iteration, more frequent pairs are considered first.",
  ["inputs","configurations"],"every model, sample set and option set",
  "Merging is not tested.",
  ["src/merge.rs"],[("acceptance conditions before the addition","ModelVocabularyMerger::merge"),("budget counted down with every addition","ModelVocabularyMerger::merge")])
p("C23","A generated vocabulary covers every byte, without duplicates, within size",
  "Every generated vocabulary contains each of the 256 single bytes, marked keep, and no token twice; when the requested size leaves room for only some tokens, added ones go in before suggested ones and both before mined ones; besides the bytes only added ones are marked keep, and beyond the 256 bytes nothing is added once the requested size is reached. Mined candidates are at most the maximum length, whole characters, and accepted by the allow pattern.",
  ["inputs","configurations"],"every sample set, token lists, patterns, size and draw",
  "One generator run is checked for one token being present.",
  ["src/generate.rs"],[("byte tokens inserted first and remembered as seen","VocabularyGenerator::generate"),("seen set consulted before each insertion","generate"),("length and allow checks before recording","feed")])
p("C24","Parallel accumulation counts every chunk exactly once",
  "Each parallel pass adds every chunk's private counts into the shared counts exactly once, element by element, and the shared result is read only after all chunks are done. The outcome does not depend on the schedule (sums of floating-point numbers up to rounding), and no thread takes a shared lock while holding one. What one feeding of the generator counts is added to what it counted before.",
  ["schedules","inputs"],"every schedule of the worker pool and every chunking",
  "Tests observe one schedule of tiny inputs, usually a single chunk.",
  ["src/prune.rs","src/merge.rs","src/mine.rs","src/generate.rs","src/task.rs"],[("one locked merge after the chunk loop","run_e_step, prune_vocab, merge"),("per-key addition into a concurrent map","mine, feed"),("chunk size at least 1","par_chunk_size")])
p("C25","Training loops and splitting always terminate",
  "Pruning, merging and special-token splitting terminate for every input: each repetition of their outer loops either makes progress towards the exit condition or leaves the loop.",
  ["inputs","configurations"],"every model, sample set, option set and text",
  "A test that ends shows termination for its own input only.",
  ["src/prune.rs","src/merge.rs",T],[("exit when a pass makes no progress","prune, merge"),("cursor strictly increases","SpecialTokenSplitter::next")])
p("C26","A reused lattice behaves like a new one",
  "Preparing a lattice for a text removes every trace of the text before it: nodes, begin and end lists contain only the start and end markers, and recycled storage is handed out empty. Results therefore do not depend on what the lattice was used for before.",
  ["histories","inputs"],"every sequence of texts put through one lattice",
  "The lattice has no tests.",
  [L],[("nodes cleared, lists returned and re-obtained","Lattice::from"),("storage cleared when returned","VecPool::put"),("markers re-created","Lattice::from")])
p("C27","The pattern table is well-formed and combines exactly",
  "Every named pattern is valid, uniquely named, never matches the empty text, accepts all its examples and none of its counter-examples, and every pattern name the README uses exists. For any non-empty selection, the combined allow pattern accepts a text iff one of its parts matches the whole of it, and the combined mining pattern is the alternation of its parts in order.",
  ["inputs","configurations"],"every pattern name and every selection of patterns",
  "A test walks examples of the named patterns, but the combinations users build are never tested.",
  ["src/regex.rs",CLI],[("table of name, pattern, examples","PATTERNS"),("anchored alternation","build_allow_regex"),("alternation","build_mine_regex"),("name lookup, else custom pattern","load_patterns")])
p("C28","Each command-line option reaches the parameter it names",
  "Every subcommand passes each option to the parameter it documents, uses the default when it is absent (generate: insert_probability 0.1, max_token_length 24; prune: dropout 0.01, shrink_factor 0.8, em_subiters 1; filter: vocab_size 0, force false; merge: num_merges 1000, step 50, scale_factor 0.9, max_token_length 24), and keeps the input tokenizer's processors and special tokens in what it writes; mine writes every idiom it found, in order. Every advertised subcommand is implemented and, given its required options, runs whether or not the others are given.",
  ["configurations"],"every subcommand and option set",
  "No test runs the command line.",
  [CLI],[("dispatch","main"),("parameter plumbing","*_cmd"),("tokenizer taken apart and put together again","prune_cmd, filter_cmd, merge_cmd")])
p("C29","Training sources are split, processed and sampled as documented",
  "Each source name:path[:proportion] yields the NUL-separated samples of that file, in order, without empty ones, limited to the first floor(count x proportion) of them and passed through every processor in order; the commands train on all samples of all sources.",
  ["inputs","configurations"],"every source specification and file",
  "No test loads a source.",
  [CLI],[("split, filter, take, process","load_sources"),("flattening of all sources","shuffled_train_samples, generate_cmd")])
p("C30","The lattice finds the best path and sums over all paths",
  "Best-path search connects each node to the best-scoring reachable node that ends where it begins and returns the tokens of the best path, without markers, or nothing if there is none; marginals give each node the probability mass of exactly the paths through it. The n-best list expands every predecessor of a hypothesis with its own score and yields hypotheses best first.",
  ["inputs"],"every lattice reachable through insertion",
  "The lattice has no tests.",
  [L],[("forward relaxation and backtracking","Lattice::viterbi"),("agenda search","Lattice::nbest"),("forward-backward recurrences","Lattice::populate_marginal"),("lattice construction","Lattice::insert, Model::populate_nodes")])
p("C31","Mining counts every match and returns the most frequent first",
  "Mining counts every non-overlapping match of the pattern in every sample, and returns at most the requested number of idioms, in order of descending count, each once with its total count.",
  ["inputs","schedules"],"every sample set, pattern and limit",
  "One test mines four short samples.",
  ["src/mine.rs"],[("per-chunk counts added up per idiom","IdiomMiner::mine"),("sort, truncate","IdiomMiner::mine")])
p("C32","Dataset scripts select each sample for one split and honour their filters",
  "Building a dataset puts each file in exactly one of the train and test splits, and a sample counted as rejected is never written. Every option a script reads is one it declares, under the same name, and every documented invocation passes only declared options.",
  ["inputs","configurations"],"every file set and option set",
  "The scripts have no tests.",
  ["scripts/datagen.py","scripts/trainbpe.py"],[("filters that count and skip","datagen.py"),("argument parsers","scripts/*.py")])
p("C33","Expectation counts use every snippet of every sample",
  "Each estimation pass cuts every sample into consecutive snippets that cover it completely, segments each with the current model and the configured dropout, and adds its marginals once. Filling a lattice adds every vocabulary token at every place it occurs in the text, with its own id, length and score (dropout aside), and nothing else. Re-estimation gives each surviving token its own count, in the same order.",
  ["inputs"],"every model and sample set",
  "The estimation passes have no tests.",
  ["src/prune.rs","src/model.rs"],[("snippet loop","run_e_step"),("lattice filled from the trie","Model::populate_nodes"),("counts paired with tokens by id","run_m_step")])
p("C34","Generated scores count the samples a token was drawn from",
  "Feeding adds, for every sample, exactly one to the frequency of each distinct token drawn from it. What can be drawn, each with the insertion probability, is every whole-character piece of the sample (of each match of the split pattern, if one is given) up to the maximum length that the allow pattern accepts, and every added or suggested token that occurs in the sample. In the generated vocabulary a token weighs its frequency times its length in bytes, and a single byte weighs the highest frequency (one if nothing was counted); every score is the logarithm of the token's share of the total weight. Mined tokens go in by descending frequency.",
  ["inputs","configurations"],"every sample set, token lists, patterns and draws",
  "One generator run is checked for one token being present, never for its score.",
  ["src/generate.rs"],[("per-sample set of drawn tokens, then one increment each","VocabularyGenerator::feed"),("frequency times length, then logprobs","VocabularyGenerator::generate, logprobs")])
p("C35","Re-estimation turns expected counts into scores",
  "A round of estimation keeps a token exactly if its expected count is at least one half or it is marked keep, and scores it with psi(count) - psi(total of the counts kept), a smaller count being taken as one half. psi is the digamma function, to within one part in a million. The configured number of rounds precedes each pruning step.",
  ["inputs","configurations"],"every model, sample set and number of rounds",
  "The one test of the digamma function prints values and checks none; the rounds are not tested.",
  ["src/prune.rs"],[("threshold and scores","ModelVocabularyPruner::run_m_step"),("recurrence and asymptotic expansion","digamma"),("rounds before pruning","ModelVocabularyPruner::prune")])
p("C36","Bundled scripts and documented commands fit the interfaces they use",
  "Every call of the tokengeex package in the bundled scripts and the bindings' example names something the package exports, with arguments it accepts and every required one. Every invocation of the tool in the documentation and shell scripts names an existing subcommand and its options, no option twice unless it may be repeated, every required option, and values of the right type; every option listed in the documentation exists. The plotting script reads only entries that the evaluation script writes.",
  ["configurations"],"every documented or scripted invocation and every call in the scripts",
  "Neither scripts nor documented commands are run by a test.",
  ["README.md","docs/RECIPES.md","scripts/benchmark.py","scripts/plot.py","bindings/python/example.py","src/cli.rs"],[("option declarations","flags::Tokengeex"),("calls of the package","scripts/benchmark.py, scripts/evaluate.py, example.py"),("documented command lines","README.md, docs/RECIPES.md")])
p("C37","Evaluation and search scripts count every sample exactly once",
  "For each file the evaluation script reports the number of tokens its samples encode to (without dropout, truncation or added special tokens), the number of characters of the samples, and the ratio of the two. It counts every occurrence of every token of every sample once, and its frequency buckets are consecutive, non-overlapping slices of the frequencies in descending order, from the most frequent. The search script reports, for each file and in total, how often the string occurs in the samples and how many samples contain it.",
  ["inputs"],"every set of files, samples and encoder",
  "The scripts have no tests.",
  ["scripts/evaluate.py","scripts/find.py"],[("per-file counts","evaluate.py"),("frequency buckets","evaluate.py"),("per-file and total counts","find.py")])
p("N01","Each pruning iteration does not lower the corpus likelihood by EM",
  "An expectation-maximisation pass never lowers the (penalised) likelihood of the samples, and its marginals are numerically accurate.",
  ["inputs"],"every model and sample set","No test computes a likelihood.",["src/prune.rs",L],[("E and M steps","run_e_step, run_m_step")])
p("N02","Pruning removes the tokens whose loss is least harmful",
  "The approximated loss by which pruning orders tokens is close to the true loss of likelihood.",
  ["inputs"],"every model and sample set","No test computes a loss.",["src/prune.rs"],[("loss estimate","prune_vocab")])
p("N03","Dropout follows the requested probability",
  "A multi-byte token is left out with exactly the requested probability, independently at each occurrence.",
  ["inputs"],"every random stream","One test runs dropout 0.5 and prints the result.",[M],[("random draw","Model::encode, populate_nodes")])
p("N04","Encoding takes time linear in the text",
  "Encoding and decoding take time linear in the length of the text for a fixed vocabulary.",
  ["inputs"],"every text","Benchmarks sample a few texts.",[M,T],[("single pass with bounded look-ahead","Model::encode")])
p("N05","Unicode normal forms and pattern matching follow their specifications",
  "The normalization and pattern-matching libraries the tool builds on implement their published specifications.",
  ["inputs"],"every text","The repository's tests do not test its dependencies.",[PR],[("external crates","unicode-normalization, regex, fancy-regex")])
p("N06","An interrupted save leaves either the old or the new file",
  "A crash while a tokenizer is being saved leaves the previous file or the complete new one.",
  ["crash_points"],"every crash point during a save","No test saves.",[T],[("std::fs::write in place","Tokenizer::save")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
