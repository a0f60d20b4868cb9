"""Interfaces between parts that are verified separately."""
from terms import *
import terms as TT
from iters import it, I_seq


def trie_push(I, a, st, fr, e):
    cur = I.load(st, a[0])
    k, v = I.deep(st, a[1]), I.deep(st, a[2])
    I.store(st, a[0], mk('tput', cur, k, v), fr, e)
    return UNIT


def trie_search(I, a, st, fr, e):
    tr = I.deep(st, a[0])
    from iters import to_iter, drive_seq, unpar
    x = a[1]
    src = to_iter(I, st, x, fr, e, I.tyof(fr, e['args'][1])) if e is not None and 'args' in e else to_iter(I, st, x, fr, e, {'k': 'adt', 'path': '', 's': '', 'args': []})
    d, pos = src.args[2]
    if d.op == 'I_seq':
        v = d.args[0]
    else:
        from models import accum
        v = accum(I, st, src, EMPTY, lambda acc, y, s: cat(acc, one(I.deep(s, y))), fr, e)
    if v.op == 'items':
        v = v.args[0]
    # the iterator uses (and scribbles on) the scratch buffer
    if len(a) > 2 and a[2].op == 'ref':
        b = I.load(st, a[2])
        I.event('triebuf', st, fr, e, buf=b)
        I.store(st, a[2], mk('scratch'), fr, e)
    return it(I_seq(mk('prefixes', tr, v)))


TRIE = {
    'tokengeex::trie::Trie::<Data>::push': trie_push,
    'tokengeex::trie::Trie::<Data>::common_prefix_search': trie_search,
}


def _op(name):
    def f(I, a, st, fr, e):
        vals = [I.deep(st, x) for x in a]
        r = mk(name, *vals)
        I.event('call', st, fr, e, name=name, args=vals, raw=list(a), ret=r)
        return r
    return f


TOK = dict(TRIE)
TOK.update({
    'tokengeex::model::Model::encode': _op('m_encode'),
    'tokengeex::model::Model::decode': _op('m_decode'),
    'tokengeex::processor::Processor::preprocess': _op('pre'),
    'tokengeex::processor::Processor::postprocess': _op('post'),
})
SINGLE = dict(TOK)
SINGLE.update({
    'tokengeex::tokenizer::Tokenizer::encode': _op('t_encode'),
    'tokengeex::tokenizer::Tokenizer::encode_ordinary': _op('t_encode_ordinary'),
    'tokengeex::tokenizer::Tokenizer::decode': _op('t_decode'),
})

# training: the model, the lattice and the encoder are verified on their own
def m_from(I, a, st, fr, e):
    v = I.deep(st, a[0])
    I.event('call', st, fr, e, name='m_from', args=[v], ret=None)
    return mk('m_from', v)


def lat_from(I, a, st, fr, e):
    t = I.deep(st, a[1])
    I.event('call', st, fr, e, name='lat_from', args=[t], ret=None)
    I.store(st, a[0], mk('lat', t), fr, e)
    if a[2].op == 'ref':
        I.store(st, a[2], mk('pool'), fr, e)
    return UNIT


def populate(I, a, st, fr, e):
    m, l, d = I.deep(st, a[0]), I.load(st, a[1]), I.deep(st, a[2])
    I.event('call', st, fr, e, name='populate', args=[m, l, d], ret=None)
    I.store(st, a[1], mk('nodes', l, m, d), fr, e)
    return UNIT


def marginal(I, a, st, fr, e):
    l, v = I.deep(st, a[0]), I.load(st, a[1])
    I.event('call', st, fr, e, name='marginal', args=[l, v], ret=None)
    I.store(st, a[1], mk('marg', v, l), fr, e)
    I.store(st, a[0], mk('used', l), fr, e) if a[0].op == 'ref' else None
    return mk('z', l)


def nbest(I, a, st, fr, e):
    l, n = I.deep(st, a[0]), I.deep(st, a[1])
    I.event('call', st, fr, e, name='nbest', args=[l, n], ret=None)
    return mk('nbest', l, n)


TRAIN = dict(TOK)
TRAIN.update({
    'tokengeex::model::Model::from': m_from,
    "tokengeex::lattice::Lattice::<'a>::from": lat_from,
    'tokengeex::model::Model::populate_nodes': populate,
    "tokengeex::lattice::Lattice::<'a>::populate_marginal": marginal,
    "tokengeex::lattice::Lattice::<'a>::nbest": nbest,
})
