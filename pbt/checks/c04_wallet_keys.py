"""C04: a wallet is a function of its seed."""
import os

import ed25519
import mnemonic
from hypothesis import strategies as st

from tfchain.TFChainWallet import TFChainWallet
from tfchain.types.ConditionTypes import UnlockHash
from tfchain.types.PrimitiveTypes import Hash

from pbt import gen, ref, sim
from pbt.core import Sub, check, eq, fail, rejects

ENGLISH = mnemonic.Mnemonic('english')
seeds = st.one_of(st.sampled_from([16, 20, 24, 28, 32, 32, 32]).flatmap(lambda n: st.binary(min_size=n, max_size=n)),
                  st.sampled_from([bytes(32), b'\xff' * 32, bytes(31) + b'\1', bytes(16)]))


def phrase(seed):
    """BIP39 words of a seed, computed here"""
    import hashlib
    bits = ''.join('{:08b}'.format(b) for b in seed) + '{:08b}'.format(hashlib.sha256(seed).digest()[0])[:len(seed) // 4]
    return ' '.join(ENGLISH.wordlist[int(bits[i:i + 11], 2)] for i in range(0, len(bits), 11))


def wallet(seed, keys, scan=0, chain=None):
    return TFChainWallet(seed=seed, key_count=keys, key_scan_count=scan, client=(chain or sim.Chain()).client())


def owns(w, seed, n, what):
    """the wallet owns exactly the first n keys of the seed"""
    want = [sim.key(seed, i) for i in range(n)]
    eq(list(w.addresses), [k.addr for k in want], what + ': addresses')
    eq(w.address, want[0].addr, what + ': primary address')
    eq(w.key_count, n, what + ': number of keys')
    for k in want:
        for form in (k.addr, UnlockHash.from_json(k.addr)):
            p = w.key_pair_get(form)
            eq(str(p.public_key), ref.pk_text(k.pk), what + ': public key of ' + k.addr)
            eq(str(p.unlockhash), k.addr, what + ': address of its key')
    other = sim.key(seed, n)
    for form in (other.addr, UnlockHash.from_json(other.addr)):
        try:
            w.key_pair_get(form)
        except KeyError:
            continue
        fail('{}: the wallet owns key {} as well', what, n)


def restore(case, ctx):
    seed, n = case['seed'], case['n']
    ctx.label('{} bytes'.format(len(seed)))
    ctx.nontrivial(n + len(case['ops']) > 1)
    w = wallet(seed, n)
    total = n
    for op in case['ops']:
        k = sim.key(seed, total)
        if op == 'address':
            eq(w.address_new(), k.addr, 'new address')
            total += 1
        elif op == 'key':
            eq(str(w.public_key_new()), ref.pk_text(k.pk), 'new public key')
            total += 1
        elif op == 'look':
            owns(w, seed, total, 'wallet')
    owns(w, seed, total, 'wallet')
    eq(bytes(w.seed), seed, 'seed')
    eq(w.mnemonic, phrase(seed), 'seed phrase')
    for form in (w.mnemonic, bytes(w.seed), bytearray(w.seed), phrase(seed)):
        r = wallet(form, total)
        owns(r, seed, total, 'restored wallet')
        eq(bytes(r.seed), seed, 'seed of the restored wallet')
        eq(r.mnemonic, w.mnemonic, 'seed phrase of the restored wallet')
    # the one who gave the seed clears it afterwards
    given = bytearray(seed)
    r = wallet(given, n)
    for i in range(len(given)):
        given[i] = 0
    owns(r, seed, n, 'wallet whose seed was cleared by the caller')
    eq([r.address_new(), bytes(r.seed)], [sim.key(seed, n).addr, seed], 'next address and seed of a wallet whose seed was cleared by the caller')
    h = case['h']
    for i in range(total):
        k = sim.key(seed, i)
        p = w.key_pair_get(k.addr)
        sig = bytes(p.sign(h))
        check(sim.verifies(k.pk, sig, h), 'the signature of key {} does not verify', i)
        eq(bytes(p.sign(Hash(value=h))), sig, 'signature of the same hash')
        check(not sim.verifies(k.pk, sig, case['h2']) or h == case['h2'], 'the signature verifies for another hash')


def far(case, ctx):
    """a wallet with many keys"""
    ctx.nontrivial()
    seed, n = case['seed'], case['n']
    w = wallet(seed, n)
    want = [sim.Key(seed, i).addr for i in range(n)]
    eq(list(w.addresses), want, 'addresses')
    for i in range(n, n + 3):
        eq(w.address_new(), sim.Key(seed, i).addr, 'address {}'.format(i))


def raw(case, ctx):
    """a raw seed of any length"""
    seed, n = case['seed'], case['n']
    ctx.nontrivial(len(seed) not in (16, 20, 24, 28, 32))
    ctx.label('longer than a phrase' if len(seed) > 32 else 'shorter than a phrase' if len(seed) < 16 else 'as long as a phrase')
    for form in (seed, bytearray(seed)):
        w = wallet(form, n)
        owns(w, seed, n, 'wallet of a raw seed')
        eq(bytes(w.seed), seed, 'raw seed')


def fresh(case, ctx):
    """wallets made without a seed"""
    ctx.nontrivial()
    ws = [wallet(None, case['n']) for _ in range(3)]
    for w in ws:
        eq(len(bytes(w.seed)), 32, 'length of a new seed')
        owns(w, bytes(w.seed), case['n'], 'new wallet')
        owns(wallet(w.mnemonic, case['n']), bytes(w.seed), case['n'], 'new wallet, restored')
    eq(len({bytes(w.seed) for w in ws}), 3, 'different new seeds')


def bad_phrase(case, ctx):
    words = phrase(case['seed']).split()
    i, j = case['i'] % len(words), case['j'] % len(words)
    how = case['how']
    ctx.label(how)
    if how == 'replace':
        words[i] = ENGLISH.wordlist[case['w']]
    elif how == 'foreign':
        words[i] = case['word']
    elif how == 'drop':
        del words[i]
    elif how == 'add':
        words.insert(i, ENGLISH.wordlist[case['w']])
    elif how == 'swap':
        words[i], words[j] = words[j], words[i]
    text = ' '.join(words)
    # what the checksum says about it, computed here
    known = all(w in ENGLISH.wordlist for w in words) and len(words) in (12, 15, 18, 21, 24)
    entropy = None
    if known:
        bits = ''.join('{:011b}'.format(ENGLISH.wordlist.index(w)) for w in words)
        cut = len(bits) * 32 // 33
        entropy = int(bits[:cut], 2).to_bytes(cut // 8, 'big')
        if phrase(entropy) != text:
            entropy = None
    if entropy is not None:
        ctx.label('still valid')
        w = wallet(text, 1)
        owns(w, entropy, 1, 'wallet of a valid phrase')
        return
    ctx.nontrivial()
    rejects(lambda: wallet(text, 1), 'seed phrase {!r}'.format(text), allow=(LookupError,))


def bad_type(case, ctx):
    ctx.nontrivial()
    v = {'int': 12, 'float': 1.5, 'list': ['abandon'] * 12, 'dict': {}}[case['v']]
    rejects(lambda: wallet(v, 1), 'seed {!r}'.format(v), allow=(AttributeError,) if False else ())


SUBS = [
    Sub('restore', st.fixed_dictionaries({
        'seed': seeds, 'n': st.integers(1, 5), 'ops': st.lists(st.sampled_from(['address', 'address', 'key', 'look']), max_size=6),
        'h': gen.b32, 'h2': gen.b32}), restore, 300, 6000, 'more than one key'),
    Sub('many', st.fixed_dictionaries({'seed': seeds, 'n': st.integers(1, 120), 'ops': st.lists(st.sampled_from(['address', 'key']), max_size=20),
                                       'h': gen.b32, 'h2': gen.b32}), restore, 16, 300, 'more than one key'),
    Sub('far', st.fixed_dictionaries({'seed': seeds, 'n': st.one_of(st.integers(250, 300), st.integers(500, 1100))}), far, 8, 60, 'every case'),
    Sub('raw', st.fixed_dictionaries({'seed': st.one_of(st.binary(min_size=1, max_size=80), st.binary(min_size=30, max_size=70)), 'n': st.integers(1, 3)}), raw, 60, 1500, 'not a length of a phrase'),
    Sub('fresh', st.fixed_dictionaries({'n': st.integers(1, 3)}), fresh, 60, 400, 'every case', shards=1),
    Sub('phrase', st.fixed_dictionaries({
        'seed': seeds, 'i': st.integers(0, 23), 'j': st.integers(0, 23), 'w': st.integers(0, 2047),
        'word': st.sampled_from(['', 'tfchain', 'abandonn', 'Zoo', 'zoö', '0', 'ab andon']),
        'how': st.sampled_from(['replace', 'foreign', 'drop', 'add', 'swap', 'same'])}), bad_phrase, 600, 8000, 'a phrase which is not valid'),
    Sub('type', st.fixed_dictionaries({'v': st.sampled_from(['int', 'float', 'list', 'dict'])}), bad_type, 4, 4, 'every case', shards=1),
]
ASSUMPTIONS = ['the word list of the mnemonic package is the BIP39 English one', 'the ed25519 package is trusted']
