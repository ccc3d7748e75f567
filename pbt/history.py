"""Generated histories of a chain, over the addresses of a few parties: plain operations, and how to play them on a sim.Chain."""
from hypothesis import strategies as st

from pbt import gen, ref, sim

ONE = 10**9
SEED = bytes(range(32))          # our wallet
OTHER = b'\x77' * 32             # everybody else


def party(n):
    """the n-th key: 0-3 are ours, the others belong to somebody else"""
    return sim.key(SEED, n) if n < 4 else sim.key(OTHER, n)


# which network, how old (height and time of the chain), and how its explorer lists what it knows
AGES = [[100, 1_550_000_000]] * 4 + [[65_530, 1_600_000_000], [1_000_000, 1_700_000_000], [16_777_210, 4_294_966_000], [70_000, 2_147_483_000]]
world = st.fixed_dictionaries({'network': st.sampled_from(['testnet', 'standard', 'devnet']), 'age': st.sampled_from(AGES), 'listing': st.sampled_from(['desc', 'asc', 'shuffled']), 'shuffle': st.integers(0, 1000)})


def new_chain(w):
    return sim.Chain(network=w['network'], height=w['age'][0], time=w['age'][1], listing=w['listing'], shuffle=w['shuffle'])


# who an output can be for: ['p', n] | ['ms', [n, ..], count] | ['nil'] | ['swap', a, b]
who = st.one_of(
    st.integers(0, 5).map(lambda n: ['p', n]), st.integers(0, 3).map(lambda n: ['p', n]),
    st.lists(st.integers(0, 6), min_size=1, max_size=4, unique=True).flatmap(lambda ns: st.integers(1, len(ns)).map(lambda c: ['ms', ns, c])),
    st.sampled_from([['ms', [0, 4], 1], ['ms', [0, 4], 2], ['ms', [0, 1], 2], ['ms', [4, 5], 1], ['ms', [1, 0, 4], 2]]),
    st.sampled_from([['nil'], ['swap', 0, 4], ['swap', 4, 0]]))
mine = st.one_of(st.integers(0, 3).map(lambda n: ['p', n]), st.sampled_from([['ms', [0, 4], 1], ['ms', [0, 1], 2], ['ms', [1, 0, 4], 2]]))
# a lock relative to the present: ['h', blocks] | ['t', seconds] | None
lock = st.one_of(st.none(), st.none(), st.tuples(st.just('h'), st.integers(-3, 6)).map(list), st.tuples(st.just('t'), st.sampled_from([-600, -1, 0, 1, 599, 600, 601, 3000])).map(list))
value = st.one_of(st.integers(1, 50).map(lambda n: n * ONE), st.integers(1, 10 * ONE))
out = st.tuples(value, who, lock).map(list)


def condition(chain, w, l=None):
    if w[0] == 'p':
        c = {'k': 'uh', 'uh': party(w[1]).uh}
    elif w[0] == 'ms':
        c = {'k': 'ms', 'n': w[2], 'uhs': [party(n).uh for n in w[1]]}
    elif w[0] == 'nil':
        c = {'k': 'nil'}
    else:
        return {'k': 'swap', 's': party(w[1]).uh, 'r': party(w[2]).uh, 'hs': bytes(32), 'lt': chain.time + 3600}
    if l is not None:
        c = {'k': 'lock', 'v': max(1, (chain.height if l[0] == 'h' else chain.time) + l[1]), 'c': c}
    return c


def output(chain, o):
    return {'v': o[0], 'c': condition(chain, o[1], o[2])}


op = st.one_of(
    st.fixed_dictionaries({'op': st.just('grant'), 'outs': st.lists(out, min_size=1, max_size=4), 'conf': st.booleans(), 'ver': st.sampled_from([1, 1, 1, 129, 209])}),
    st.fixed_dictionaries({'op': st.just('spend'), 'which': st.lists(st.integers(0, 40), min_size=1, max_size=4), 'outs': st.lists(out, max_size=3),
                           'conf': st.booleans(), 'ver': st.sampled_from([1, 1, 1, 208])}),
    st.fixed_dictionaries({'op': st.just('mine'), 'n': st.integers(1, 3), 'sec': st.sampled_from([1, 599, 600, 601, 3000]), 'keep': st.integers(0, 2)}),
    st.fixed_dictionaries({'op': st.just('mint'), 'who': st.one_of(mine, st.integers(0, 5).map(lambda n: ['p', n])), 'conf': st.booleans()}))
ops = st.lists(op, min_size=1, max_size=14)


def play(chain, o):
    """perform one operation; False if it is not possible now"""
    k = o['op']
    if k == 'grant':
        if o['ver'] == 209:
            u = [x for x in o['outs'] if x[1][0] == 'p'][:1]
            if not u:
                return False
            chain.salt += 1
            chain.record({'ver': 209, 'addr': party(u[0][1][1]).uh, 'value': u[0][0], 'fee': ONE, 'block': bytes(32), 'txid': chain.salt.to_bytes(32, 'big')}, o['conf'])
        elif o['ver'] == 129:
            chain.salt += 1
            chain.record({'ver': 129, 'nonce': chain.salt.to_bytes(8, 'big'), 'mf': {'k': 'single', 'pk': [1, bytes(32)], 'sig': b'\1' * 64},
                          'co': [output(chain, x) for x in o['outs']], 'fees': [ONE], 'data': b''}, o['conf'])
        else:
            chain.grant([output(chain, x) for x in o['outs']], o['conf'])
    elif k == 'spend':
        live = [(i, r) for i, r in chain.outputs.items() if r['spent'] is None]
        ids = []
        for n in o['which']:
            if live:
                i, r = live[n % len(live)]
                if i not in ids:
                    ids.append(i)
        if not ids:
            return False
        conf = o['conf'] and all(chain.outputs[i]['by'].height is not None for i in ids)
        outs = [output(chain, x) for x in o['outs']]
        if o['ver'] == 1:
            chain.spend(ids, outs, conf)
        else:
            chain.record({'ver': 208, 'addr': b'\5' * 20, 'value': ONE, 'fee': ONE, 'refund': outs[0] if outs else None,
                          'ci': [{'p': i, 'f': {'k': 'single', 'pk': [1, bytes(32)], 'sig': b'\1' * 64}} for i in ids]}, conf)
    elif k == 'mine':
        chain.mine(o['sec'], o['n'], keep=o['keep'])
    else:
        chain.salt += 1
        chain.record({'ver': 128, 'nonce': chain.salt.to_bytes(8, 'big'), 'mf': {'k': 'single', 'pk': [1, bytes(32)], 'sig': b'\1' * 64},
                      'mc': condition(chain, o['who']), 'fees': [ONE], 'data': b''}, o['conf'])
    return True
