"""Writes DESIGN.md from tools/design_head.md, the notes below, properties.jsonl, the obligations of the last run and seeded/."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# how: what is derived from the source and compared with what; reach: what no test settles
NOTES = {
 'C01': ('The dynamic programme of `Model::encode` is reduced to one table (any of: parallel vectors, vector of structs, Option entries), its writes, and the loop that reads it back. '
         'Induction over positions: an entry at p says that the token `id` spells input[start..p]; the write (`record`), the initial table and the absence of other writers give the invariant; `backtrack` shows that exactly the chain of starts from |input| to 0 is read, reversed. The prefix index is shown to store the id and byte length of exactly the bytes on the path.',
         'The tests encode a few strings; the invariant is about every vocabulary, text and random draw (the random draw is an opaque term, so both outcomes are covered).'),
 'C02': ('Optimality by the Bellman conditions of the same table: whole rest searched, all positions ascending, all hits considered, skipped only when unreached, relaxation `no entry or greater`, start reached at 0, error iff the end is unreached. With dropout 0 the drop condition is refuted by the interval argument on the draw.',
         'Sampled texts do not show the tie and reachability cases; the conditions are compared as decision diagrams, so `>=` for `>`, a wrong guard or an early stop differs.'),
 'C03': ('Effect analysis: for every public method of Tokenizer/Model on a shared reference all reachable calls are enumerated; randomness must be under `dropout > 0`; statics, locks, atomics, cells and writes through shared references are forbidden; field types are scanned for interior mutability.',
         'A race or a hidden cache shows up under schedules no test produces.'),
 'C04': ('The condition under which a hit is left out is extracted as a formula over (draw, dropout, length) with draw in [0,1): it must imply length >= 2, be false at 0 and true at >= 1 for longer tokens. Both sampling sites (encode, populate_nodes).',
         'Probabilistic: a test sees one seed.'),
 'C05': ('Normal form of `decode` (loop over ids with text accumulators) is compared with the specified fold, case by case: base id, special id with/without inclusion, unknown id, end. Panic obligations: every index, slice and subtraction is proved in range under its path condition.',
         'Every id sequence and position of a bad id.'),
 'C06': ('Each lookup is a closed term; it is compared with the specification over symbolic id, base size and number of specials (linear arithmetic on decision diagrams), and proved free of out-of-range accesses.',
         'All ids up to u32::MAX, all sizes.'),
 'C07': ('Every place that turns a special token into an id or back is enumerated and its term must use |vocab| + registration index; the registration loop is compared with the specified fold; no other method may write the maps.',
         'Histories of additions: the base size must be read at use, not cached.'),
 'C08': ('Construction and addition are reduced to per-item writes of the three indexes; item j must enter list, map and trie under one id, the trie also with the byte length; Trie::push and the search iterator are compared with the per-byte walk; inheritance of write access is checked (`writers`).',
         'Consistency over all histories of additions.'),
 'C09': ('The splitter loop (or iterator, or explicit work list) is turned into cursor normal form: pieces are text[cursor..cut], the cursor moves to the end of the piece, the cut is the minimum over registered non-empty specials of the first occurrence, progress is strict.',
         'All texts and special sets, including prefixes of one another and the empty set.'),
 'C10': ('The normal form of a batch call must equal the order-preserving map of the normal form of the single call with the same options; errors are those of some item.',
         'Item positions, option plumbing and schedules.'),
 'C11': ('The text given to segmentation must be the fold of `preprocess` over the processors in order, and the decoded text the fold of `postprocess` in reverse; processor bodies are compared with their specification (`replace("\\r\\n","\\n")`, one normal form each); hand-written CRLF loops are folded symbolically over the position of the next CRLF.',
         'All processor lists and texts.'),
 'C12': ('The serializer is read as an abstract writer (ordered list of names and terms), the deserializer as a reader (name -> field); read(write(x)) is composed symbolically and must be x. Types read into must own their data (a borrowed &str cannot hold an escape). Unknown names and versions must reach an error.',
         'All contents, e.g. texts with escapes.'),
 'C13': ('As C12 for the hand-written ScoredToken serializer: base64 branch and flag, optional keep, missing/unknown field. `score-exact` reads the dependency settings: serde_json without float_roundtrip is not exact (known finding).',
         'All byte strings.'),
 'C14': ('As C12 for the tagged processors; additionally the command line\'s name table is enumerated.',
         'All processors times all documents.'),
 'C15': ('All file-system effects reachable from `main` and from the public API are enumerated with path and condition; per subcommand exactly one write whose path is the output option and whose data depends on everything computed before; `save` returns its failure.',
         'Failure at any step of a run.'),
 'C16': ('Every fallible call in the binding methods: its error alternative must flow to the returned PyErr of the required class; panicking operations are proved unreachable.',
         'Failure paths of every method.'),
 'C17': ('The normal form of each method must be the library call of that name on the same arguments in the same roles; the stub (Python AST) is compared with the exported signatures.',
         'Argument roles at every call.'),
 'C18': ('`__new__`, `__getstate__`, `__setstate__` normal forms: state = serialized form, restore = parse or exception; class module/name as exported.',
         'All tokenizers.'),
 'C19': ('From the lists each step builds (entries over the old vocabulary with must/may conditions): keep(i) implies must(i), and the keep field of every entry is that of the old token.',
         'All vocabularies and sample sets.'),
 'C20': ('The filter loop is brought to (condition kept, counter of removals); the kept condition is compared with the specification over symbolic counters, in both directions, and the order of visits must be ascending score.',
         'All vocabularies, sizes and minima.'),
 'C21': ('As C19 for membership; the take-up of candidates is solved for its stopping size and compared with max(size, shrunk size); candidates must be sorted by descending loss.',
         'All vocabularies, factors and samples.'),
 'C22': ('Each append site in `merge` with its path condition: value = concatenation of the pair, lookup in the *current* index, length, allow pattern, budget by induction over rounds; pair counts as contributions (see C24).',
         'All samples; several rounds.'),
 'C23': ('The vocabulary is read as phases (256 bytes, added, suggested, mined); per phase the push condition must imply not-yet-present and room left, and the keep mark its phase; mined candidates by the path condition of their insertion.',
         'Clashes between phases and sizes.'),
 'C24': ('Contribution lists: what each parallel pass adds to each shared result, with all binders, must be independent of the split into chunks and occur once; accesses inside the parallel region may only add in one locked step; no loop over samples may be left early; guards are tracked for lock nesting (DashMap, RwLock) through calls.',
         'All schedules and chunkings.'),
 'C25': ('A ranking argument per outer loop: on every path that repeats it, a measure (vocabulary size, cursor) strictly moves towards the bound.',
         'Non-termination needs rare inputs.'),
 'C26': ('After `Lattice::from` every field must be a term free of the previous state; the pool must clear what it hands out and take back what leaves.',
         'Histories of reuse.'),
 'C27': ('The constant table is read as regular-expression syntax trees (own parser; membership by set-of-positions matching on the tree); emptiness, examples and counter-examples are decided on the trees; the combinators\' format strings are value-flow terms.',
         'Every pattern rather than the sampled ones.'),
 'C28': ('clap derive attributes are read from the expanded program: default terms, and the flow from each option to the constructor/parameter; `todo!()` branches are findings.',
         'Every option of every subcommand.'),
 'C29': ('The sample list is a term over the file contents: split at NUL, no empties, first floor(n*p), processed; every source in order.',
         'All files and proportions.'),
 'C30': ('Viterbi, forward/backward and n-best loops compared with their recurrences on symbolic lattices; the heap order with the required order.',
         'All lattices including unreachable parts.'),
 'C31': ('Contribution list of the counts, then the sort/truncate normal form.',
         'All samples.'),
 'C32': ('Python AST path enumeration of the sample loops: which writes and counts happen on each path; declared versus read options; README invocations.',
         'Paths that need network data.'),
 'C33': ('Contribution list of the expected counts: one marginal per snippet of every sample; chunks must partition the sample; the counts are paired with tokens by position.',
         'All samples, dropout and models.'),
 'C34': ('Contribution list of the frequencies (one per sample and distinct drawn token) and of the per-sample set: the condition of each insertion with the draw won and lost, and a coverage proof over symbolic start and end positions; weights and scores are terms of the vocabulary phases.',
         'All samples, patterns, probabilities; no test looks at a score.'),
 'C35': ('The new vocabulary of a round as a term: the condition under which token i stays, and its score decomposed into a recurrence sum and an expansion in powers of y = x + steps + c; its coefficients are compared with the asymptotic series of psi (Bernoulli polynomials) with an error bound at the smallest y.',
         'All counts; the test of digamma asserts nothing.'),
 'C36': ('Calls in the Python syntax trees, with the kind of each receiver (module, class, instance, bound method) followed through the block, against the exported methods and signatures; shell and Markdown invocations parsed against the option table read from the type-checked flag parser; keys read against keys written.',
         'Every invocation, not a sample of them; receivers of unknown kind are left alone.'),
 'C37': ('Symbolic evaluation of the scripts: counters become sums over files, samples and tokens, compared with the required sums; bucket bounds must meet end to start and begin at 0.',
         'All inputs; constructs outside the evaluator are undecided.'),
}


def main():
    out = [open(V + '/tools/design_head.md').read().rstrip(), '', '# Properties', '']
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    na = {x['property']: x['reason'] for x in json.load(open(V + '/MANIFEST.json'))['not_applicable']}
    caught = {}
    for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
        d = json.load(open(m))
        caught.setdefault(d['property'], []).append(os.path.basename(os.path.dirname(m)))
    for p in props:
        i = p['id']
        if i in na:
            continue
        how, reach = NOTES[i]
        out += [f'## {i} {p["title"]}', '', how, '', f'Beyond tests: {reach}', '']
        try:
            ev = json.load(open(f'{V}/evidence/{i}.json'))['coverage']
        except OSError:
            ev = None
        if ev:
            groups = {}
            for r in ev['rules']:
                groups.setdefault(r['obligation'].split(':')[0] if ':' in r['obligation'] else r['obligation'], []).append(r)
            for g, rs in groups.items():
                n = f' ({len(rs)} of them)' if len(rs) > 1 else ''
                out.append(f'- `{g}`{n}: {rs[0]["rule"]}')
            out.append('')
        if i in caught:
            out += [f'Planted bugs caught: {", ".join(caught[i])}.', '']
    out += ['# Not applicable', '']
    for p in props:
        if p['id'] in na:
            out.append(f'- **{p["id"]} {p["title"]}**: {na[p["id"]]}')
    out.append('')
    open(V + '/DESIGN.md', 'w').write('\n'.join(out))


main()
