"""which rules decide which property"""
import tokenizer, model, persist, train, pruning, parallel, generate, lattice, cli, regexes, binding, scripts, usage, counts

PROPS = {
    'C12': [persist.c12],
    'C13': [persist.c13],
    'C14': [persist.c14],
    'C01': [model.c01],
    'C02': [model.c02],
    'C03': [model.c03],
    'C04': [model.c04],
    'C08': [model.c08],
    'C05': [tokenizer.c05],
    'C06': [tokenizer.c06],
    'C07': [tokenizer.c07],
    'C09': [tokenizer.c09],
    'C10': [tokenizer.c10],
    'C11': [tokenizer.c11],
    'C15': [cli.c15],
    'C16': [binding.c16],
    'C17': [binding.c17],
    'C18': [binding.c18],
    'C19': [train.c19, pruning.c19, cli.passopts('Filter', 'force')],
    'C20': [train.c20, cli.passopts('Filter', 'vocab_size', 'min_score')],
    'C21': [pruning.c21, cli.passopts('Prune', 'vocab_size', 'shrink_factor')],
    'C22': [train.c22, cli.passopts('Merge', 'num_merges', 'max_token_length', 'allow', 'scale_factor')],
    'C23': [generate.c23, cli.passopts('Generate', 'size', 'lists', 'max_token_length', 'allow')],
    'C24': [parallel.c24],
    'C26': [lattice.c26],
    'C25': [train.c25, pruning.c25],
    'C27': [regexes.c27],
    'C28': [cli.c28],
    'C29': [cli.c29],
    'C30': [lattice.c30],
    'C31': [train.c31, cli.passopts('Mine', 'num_idioms', 'pattern')],
    'C32': [scripts.c32],
    'C33': [pruning.c33],
    'C34': [generate.c34, cli.passopts('Generate', 'insert_probability', 'split', 'allow', 'max_token_length', 'lists')],
    'C36': [usage.c36],
    'C37': [counts.c37],
    'C35': [pruning.c35, cli.passopts('Prune', 'em_subiters')],
}

# which dumps a property needs (default: library and tool)
NEEDS = {'C16': ('rs', 'py'), 'C17': ('rs', 'py'), 'C18': ('rs', 'py'), 'C32': (), 'C36': ('rs', 'py'), 'C37': ()}
_VF = 'value-flow normal forms of the type-checked program (THIR abstract interpretation)'
TECH = {
    'C03': ('interprocedural effect analysis over THIR (randomness, locks, statics, interior mutability) on value-flow normal forms', None),
    'C09': ('value-flow normal forms of the splitter: partition identity and cursor progress on every path of its loop', None),
    'C10': ('value-flow equality of each batch call with the order-preserving map of the single-item call', None),
    'C15': ('interprocedural effect analysis: every file-system effect reachable from main, with its path condition and argument flow', None),
    'C16': (_VF + '; error-flow analysis of every fallible call in the bindings', None),
    'C17': (_VF + ', and comparison of the Python stub\'s syntax tree with the exported methods', None),
    'C25': ('progress (ranking) obligations on every path through each outer loop, on value-flow normal forms', None),
    'C27': ('regular-expression syntax trees of the constant pattern table (language and example membership decided on the tree) and value flow of the combinators', None),
    'C32': ('path enumeration over the Python syntax trees of scripts/: values, conditions and write/count events per loop iteration',
            'Decided for all inputs from the syntax trees of the current scripts; constructs outside the abstraction make an obligation undecided (recorded in the evidence), never silently passed.'),
    'C36': ('typed syntax-tree analysis: kinds of values followed through the Python scripts, shell and Markdown invocations parsed, all compared with the exported bindings and the flag parser of the type-checked program',
            'Decided for every invocation and call in the current sources; a receiver or argument whose kind is unknown is left alone (recorded in the evidence).'),
    'C37': ('symbolic evaluation of the Python syntax trees of the counting scripts: loops become sums, compared with the required sums',
            'Decided for all inputs from the syntax trees of the current scripts; constructs outside the abstraction make an obligation undecided (recorded in the evidence), never silently passed.'),
}
