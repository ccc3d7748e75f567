"""C06: the address of a multi-signature wallet."""
import hashlib

from hypothesis import strategies as st

from tfchain.crypto import MerkleTree
from tfchain.types import ConditionTypes

from pbt import build, gen, ref
from pbt.core import Sub, check, eq


@st.composite
def wallets(draw):
    owners = draw(st.lists(st.one_of(gen.uh_pk, gen.uh_pk, gen.uh_any), min_size=1, max_size=12, unique_by=ref.uh_text))
    if draw(st.integers(0, 39)) == 7:
        salt = draw(st.binary(max_size=4))
        owners += [[1, ref.b2(salt + i.to_bytes(2, 'big'))] for i in range(draw(st.one_of(st.integers(5, 70), st.sampled_from([127, 255, 256, 300]))))]
    # (an owner may be listed more than once, and then counts more than once)
    for i in draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 11), min_size=1, max_size=3))):
        owners.append(owners[i % len(owners)])
    n = draw(st.one_of(st.integers(1, len(owners)), st.integers(0, 2**63)))
    order = draw(st.permutations(list(range(len(owners)))))
    change = draw(st.sampled_from(['drop', 'replace', 'add', 'type', 'count']))
    return {'owners': owners, 'n': n, 'order': list(order), 'change': change, 'at': draw(st.integers(0, len(owners) - 1)),
            'by': draw(gen.uh_pk), 'n2': draw(st.integers(0, 20))}


def address(owners, n, texts=False):
    c = ConditionTypes.multi_signature_new(min_nr_sig=n, unlockhashes=[ref.uh_text(u) if texts else build.uh(u) for u in owners])
    return str(c.unlockhash)


def addresses(case, ctx):
    owners, n = case['owners'], case['n']
    ctx.nontrivial(len(owners) > 1)
    ctx.label('{} owners'.format(len(owners)) if len(owners) < 16 else 'many owners')
    ctx.label('repeated owners', len(owners) > len(set(map(ref.uh_text, owners))))
    want = ref.uh_text(ref.condition_uh({'k': 'ms', 'n': n, 'uhs': owners}))
    a = address(owners, n)
    eq(a, want, 'multi-signature address')
    eq(address([owners[i] for i in case['order']], n), want, 'address with the owners in another order')
    eq(address(owners, n, texts=True), want, 'address from the texts of the owners')
    c = build.cond({'k': 'ms', 'n': n, 'uhs': owners})
    eq(str(c.unlockhash), want, 'address')
    eq([str(u) for u in c.unlockhashes], [ref.uh_text(u) for u in owners], 'owners after the address was computed')
    eq(str(ConditionTypes.locktime_new(lock=5, condition=c).unlockhash), want, 'address of the time-locked condition')
    # a different owner set or threshold is a different address
    other, m, at, change = list(owners), n, case['at'], case['change']
    if change == 'drop':
        del other[at]
    elif change == 'replace':
        other[at] = case['by']
    elif change == 'add':
        other.append(case['by'])
    elif change == 'type':
        other[at] = [3 - other[at][0] if other[at][0] else 1, other[at][1]]
    else:
        m = case['n2']
    key = lambda us: sorted(map(ref.uh_text, us))
    same = key(other) == key(owners) and m == n
    ctx.label('changed', not same)
    eq(address(other, m) == want, same, 'same address for owners {} / {} and {} / {}'.format(key(owners), n, key(other), m))


def trees(case, ctx):
    leaves = case['leaves']
    ctx.nontrivial(len(leaves) > 2)
    ctx.label('power of two', len(leaves) & (len(leaves) - 1) == 0)
    tree = MerkleTree(hash_func=lambda o: hashlib.sha256(o))
    tree2 = MerkleTree(hash_func=lambda o: ref.b2(o))
    sha = lambda o: hashlib.sha256(o).digest()
    if case['every'] or not leaves:
        for t, h in ((tree, sha), (tree2, ref.b2)):
            eq(t.root(), h(b''), 'Merkle root of no leaves')
    for i, leaf in enumerate(leaves):
        tree.push(leaf)
        tree2.push(bytearray(leaf))
        if i + 1 == len(leaves) or case['every']:
            for _ in range(2):
                eq(tree.root(), ref.merkle(leaves[:i + 1], sha), 'Merkle root of {} leaves'.format(i + 1))
                eq(tree2.root(), ref.merkle(leaves[:i + 1]), 'Merkle root of {} leaves'.format(i + 1))


SUBS = [
    Sub('addresses', wallets(), addresses, 2500, 30000, 'more than one owner'),
    Sub('trees', st.fixed_dictionaries({'leaves': st.one_of(st.lists(st.binary(max_size=40), max_size=40),
                                                            st.integers(1, 300).map(lambda n: [b'%d' % i for i in range(n)])),
                                        'every': st.booleans()}), trees, 1200, 10000, 'more than two leaves'),
]
