"""
A model chain and explorer, in plain data.

It validates every posted transaction on its own (with the reference encodings of ref.py, and ed25519 for the
signatures), keeps the ledger, and answers explorer requests in the JSON of the real explorer. The code under test
runs unmodified above it; only the two methods of its client that would open a connection are replaced.
"""
import copy
import hashlib
import json
import random

import ed25519

import tfchain.errors
from tfchain.TFChainClient import TFChainClient
from tfchain.TFChainWallet import TFChainWallet

from pbt import ref
from pbt.core import Violation

ONE = 10**9
NIL = [0, bytes(32)]
MAX_INPUTS = 99
MAX_DATA = 83
MONTH = 30 * 24 * 3600
FEES = {'standard': ONE // 10, 'testnet': ONE // 10, 'devnet': ONE}


# ------------------------------------------------------------------ keys

class Key:
    """key number i of a seed, derived independently of the code under test"""

    def __init__(self, seed, i):
        self.sk = ed25519.SigningKey(ref.b2(bytes(seed) + ref.s_int(i)))
        self.pk = [1, self.sk.get_verifying_key().to_bytes()]
        self.uh = ref.pk_uh(self.pk)
        self.addr = ref.uh_text(self.uh)

    def sign(self, h):
        return self.sk.sign(h)


_keys = {}


def key(seed, i):
    k = (bytes(seed), i)
    if k not in _keys:
        if len(_keys) > 5000:
            _keys.clear()
        _keys[k] = Key(seed, i)
    return _keys[k]


def verifies(pk, sig, h):
    if len(sig) != 64 or not pk[0]:
        return False
    try:
        ed25519.VerifyingKey(pk[1]).verify(sig, h)
        return True
    except Exception:
        return False


# ------------------------------------------------------------------ conditions

def inner(c):
    return c['c'] if c['k'] == 'lock' else c


def addr_of(c):
    return ref.uh_text(ref.condition_uh(c))


def is_locked(c, height, time):
    if c['k'] != 'lock':
        return False
    return (time if c['v'] >= 500_000_000 else height) < c['v']


def owners_of(c):
    c = inner(c)
    if c['k'] == 'ms':
        return c['uhs']
    if c['k'] == 'uh':
        return [c['uh']]
    return []


class Refused(Violation):
    """a submitted transaction is not one that a node accepts"""


class Entry:
    """a transaction on the chain, or waiting for it"""

    def __init__(self, tx, raw):
        self.tx, self.raw = tx, raw
        self.id = ref.b2(b'txid' + ref.tx_binary(tx))
        self.height = None
        self.order = 0
        self.seq = 0      # arrival
        self._ids = self._bs_ids = None
        self.parents = []  # plain outputs spent, in the order of the inputs
        self.bs_parents = []

    @property
    def outputs(self):
        return coin_outputs(self.tx)

    # (a transaction on the chain does not change any more)
    def ids(self):
        if self._ids is None:
            self._ids = ref.output_ids(self.tx, range(len(self.outputs)))
        return self._ids

    def bs_ids(self):
        if self._bs_ids is None:
            self._bs_ids = ref.output_ids(self.tx, range(len(self.tx.get('bo', []))), True)
        return self._bs_ids


def coin_outputs(t):
    if t['ver'] == 209:
        return [{'v': t['value'], 'c': {'k': 'uh', 'uh': t['addr']}}]
    if t['ver'] in (0, 1, 129):
        return t['co']
    if t.get('refund') is not None:
        return [t['refund']]
    return []


class Chain:
    def __init__(self, network='testnet', height=100, time=1_550_000_000, listing='desc', shuffle=0):
        self.network, self.height, self.time = network, height, time
        self.min_fee = FEES[network]
        self.listing, self.shuffle = listing, shuffle
        self.blocks = {}        # height -> [entries], time
        self.outputs = {}       # id -> {'o': plain output, 'by': entry, 'spent': entry or None}
        self.bs_outputs = {}
        self.entries = []
        self.mempool = []
        self.mint = []          # (height, condition)
        self.bots = {}          # id -> record
        self.erc20 = {}         # address -> height of the registration
        self.posted = []        # raw JSON of everything posted
        self.accepted = []      # entries accepted since the last look
        self.violation = None
        self.requests = []
        self.fault = None       # fn(kind, endpoint): may raise, or return another answer
        self.tamper = None      # fn(endpoint, answer) -> answer
        self.salt = 0
        self._block()

    # -------------------------------------------------------- blocks

    def block_id(self, height):
        return ref.b2(b'block' + ref.s_int(height))

    def _block(self):
        self.blocks[self.height] = {'time': self.time, 'txs': [], 'payouts': []}

    def mine(self, seconds=600, count=1, keep=0):
        """create blocks; the first one holds what was waiting (except the last `keep` transactions)"""
        for n in range(count):
            self.height += 1
            self.time += seconds
            self._block()
            if n == 0:
                # a transaction stays behind only if nothing that goes in depends on it: keep a suffix
                cut = len(self.mempool) - keep
                go, self.mempool = self.mempool[:cut], self.mempool[cut:]
                for e in go:
                    self._confirm(e)

    def _confirm(self, e):
        e.height = self.height
        self.blocks[self.height]['txs'].append(e)
        t = e.tx
        v = t['ver']
        if v == 128:
            self.mint.append((self.height, t['mc']))
        elif v == 144:
            self.bots[len(self.bots) + 1] = {'id': len(self.bots) + 1, 'names': list(t['names']), 'addresses': list(t['addrs']),
                                             'pk': t['pk'], 'expiration': self.time + t['months'] * MONTH}
        elif v == 210:
            self.erc20[ref.uh_text(ref.pk_uh(t['pk']))] = self.height

    # -------------------------------------------------------- transactions by decree

    def grant(self, outputs, confirmed=True, height=None, bo=()):
        """a transaction of earlier times, which needs no inputs here"""
        self.salt += 1
        t = {'ver': 1, 'ci': [], 'co': list(outputs), 'bi': [], 'bo': list(bo), 'fees': [], 'data': self.salt.to_bytes(4, 'big')}
        e = Entry(t, ref.tx_json(t))
        self._register(e)
        if confirmed:
            self._confirm(e)
        else:
            self.mempool.append(e)
        return e

    def record(self, t, confirmed=True):
        """any transaction, as if it was accepted earlier (inputs have to exist)"""
        e = Entry(t, ref.tx_json(t))
        self._register(e)
        if confirmed:
            self._confirm(e)
        else:
            self.mempool.append(e)
        return e

    def _register(self, e):
        self.salt += 1
        e.seq = self.salt
        for i in e.tx.get('ci', []):
            rec = self.outputs[i['p']]
            e.parents.append(rec['o'])
            rec['spent'] = e
        for i in e.tx.get('bi', []):
            rec = self.bs_outputs[i['p']]
            e.bs_parents.append(rec['o'])
            rec['spent'] = e
        for i, o in zip(e.ids(), e.outputs):
            self.outputs[i] = {'o': o, 'by': e, 'spent': None}
        for i, o in zip(e.bs_ids(), e.tx.get('bo', [])):
            self.bs_outputs[i] = {'o': o, 'by': e, 'spent': None}
        self.entries.append(e)

    def spend(self, ids, outputs, confirmed=True, data=None):
        """somebody spends these outputs (signatures are left out: this is how the past looked)"""
        self.salt += 1
        t = {'ver': 1, 'ci': [{'p': i, 'f': {'k': 'single', 'pk': [1, bytes(32)], 'sig': b'\1' * 64}} for i in ids],
             'co': list(outputs), 'bi': [], 'bo': [], 'fees': [self.min_fee],
             'data': self.salt.to_bytes(4, 'big') if data is None else data}
        e = Entry(t, ref.tx_json(t))
        self._register(e)
        if confirmed:
            self._confirm(e)
        else:
            self.mempool.append(e)
        return e

    def mint_now(self, height=None):
        current = None
        for h, c in self.mint:
            if height is None or h <= height:
                current = c
        return current

    # -------------------------------------------------------- validation

    def _refuse(self, msg, *args):
        raise Refused('a submitted transaction is invalid: ' + msg.format(*args))

    def _authorized(self, c, f, t, extra, what, enc=None):
        """f is a valid proof for condition c"""
        enc = enc or (ref.S if t['ver'] in (0, 1, 128, 129, 209) else ref.R)
        if is_locked(c, self.height, self.time):
            self._refuse('{} is locked', what)
        c = inner(c)
        k = c['k']
        if k in ('nil', 'uh'):
            if f['k'] != 'single':
                self._refuse('{} has a {} fulfillment', what, f['k'])
            if k == 'uh' and c['uh'] != NIL and ref.pk_uh(f['pk']) != c['uh']:
                self._refuse('{} is signed by another key than its owner', what)
            if not verifies(f['pk'], f['sig'], ref.sig_hash(t, extra)):
                self._refuse('the signature of {} does not verify', what)
        elif k == 'ms':
            if f['k'] != 'multi':
                self._refuse('{} has a {} fulfillment', what, f['k'])
            if len(f['pairs']) < c['n']:
                self._refuse('{} has {} of {} signatures', what, len(f['pairs']), c['n'])
            left = [ref.uh_text(u) for u in c['uhs']]
            for p, s in f['pairs']:
                a = ref.uh_text(ref.pk_uh(p))
                if a not in left:
                    self._refuse('{} is signed by somebody who is no owner, or twice', what)
                left.remove(a)
                if not verifies(p, s, ref.sig_hash(t, extra + enc.pk(p))):
                    self._refuse('a signature of {} does not verify', what)
        else:
            if f['k'] != 'swap':
                self._refuse('{} has a {} fulfillment', what, f['k'])
            secret = f['secret'] or b''
            if secret:
                if hashlib.sha256(secret).digest() != c['hs']:
                    self._refuse('{} is redeemed with a wrong secret', what)
                party = c['r']
            else:
                if self.time < c['lt']:
                    self._refuse('{} is refunded before its time', what)
                party = c['s']
            if ref.pk_uh(f['pk']) != party:
                self._refuse('{} is claimed by the wrong party', what)
            if not verifies(f['pk'], f['sig'], ref.sig_hash(t, extra + enc.pk(f['pk']) + secret)):
                self._refuse('the signature of {} does not verify', what)

    def bot_fee(self, t):
        """what a bot transaction has to pay, besides the fee of the miner"""
        v = t['ver']

        def months(n):
            total = 10 * n * ONE
            return total // 2 if n >= 24 else total * 7 // 10 if n >= 12 else total
        if v == 144:
            return 90 * ONE + months(t['months']) + 50 * ONE * max(0, len(t['names']) - 1)
        if v == 145:
            return months(t['months']) + 50 * ONE * len(t['names_add']) + (20 * ONE if t['addrs_add'] or t['addrs_rem'] else 0)
        return 50 * ONE * len(t['names'])

    def validate(self, t):
        v = t['ver']
        if v not in (1, 128, 129, 144, 145, 146, 208, 210):
            self._refuse('version {}', v)
        ins = t.get('ci', [])
        if len(ins) > MAX_INPUTS:
            self._refuse('{} inputs', len(ins))
        total = 0
        seen = set()
        for n, i in enumerate(ins):
            what = 'input {}'.format(n)
            if i['p'] in seen:
                self._refuse('{} repeats an earlier one', what)
            seen.add(i['p'])
            rec = self.outputs.get(i['p'])
            if rec is None:
                self._refuse('{} spends an output that does not exist', what)
            if rec['spent'] is not None:
                self._refuse('{} spends an output that is spent already', what)
            total += rec['o']['v']
            self._authorized(rec['o']['c'], i['f'], t, ref.s_int(n), what)
        if t.get('bi') or t.get('bo'):
            self._refuse('it moves block stakes')
        outs = coin_outputs(t)
        for o in outs:
            if o['v'] <= 0:
                self._refuse('an output has no value')
            c = inner(o['c'])
            if c['k'] == 'ms' and not 1 <= c['n'] <= len(c['uhs']):
                self._refuse('a multi-signature output nobody can spend')
            if c['k'] == 'uh' and c['uh'][0] != 1:
                self._refuse('an output for an address which is not that of a personal wallet')
        if len(t.get('data', b'')) > MAX_DATA:
            self._refuse('{} bytes of data', len(t['data']))
        fees = sum(t['fees']) if 'fees' in t else t['fee']
        if fees < self.min_fee:
            self._refuse('fee {} is below the minimum {}', fees, self.min_fee)
        out = sum(o['v'] for o in outs) + fees
        if v in (128, 129):
            current = self.mint_now()
            f = t['mf']
            # (the signer of a mint transaction signs without index)
            self._authorized(current, f, t, b'', 'the mint condition')
            if v == 128:
                c = inner(t['mc'])
                if c['k'] not in ('uh', 'ms') or c['k'] == 'uh' and c['uh'][0] != 1:
                    self._refuse('the new mint condition is {}', t['mc'])
            return fees
        if not ins:
            self._refuse('it has no inputs')
        if v in (144, 145, 146):
            out += self.bot_fee(t)
            self._validate_bot(t)
        elif v == 208:
            if t['value'] <= 0:
                self._refuse('nothing is converted')
            out += t['value']
        elif v == 210:
            out += 10 * ONE
            if not verifies(t['pk'], t['sig'], ref.sig_hash(t, b'registration')):
                self._refuse('the signature of the registered key does not verify')
            if ref.uh_text(ref.pk_uh(t['pk'])) in self.erc20:
                self._refuse('the address is registered already')
        if out != total:
            self._refuse('inputs are worth {}, outputs and fees {}', total, out)
        return fees

    def _validate_bot(self, t):
        v = t['ver']
        if v == 144:
            if not t['names'] and not t['addrs']:
                self._refuse('a bot without names and addresses')
            if not 1 <= t['months'] <= 24 or len(t['names']) > 5 or len(t['addrs']) > 10:
                self._refuse('a bot outside the limits')
            if not verifies(t['pk'], t['sig'], ref.sig_hash(t, b'sender')):
                self._refuse('the signature of the bot does not verify')
        elif v == 145:
            bot = self.bots.get(t['id'])
            if bot is None:
                self._refuse('bot {} does not exist', t['id'])
            if not (t['months'] or t['names_add'] or t['names_rem'] or t['addrs_add'] or t['addrs_rem']):
                self._refuse('a bot update that changes nothing')
            if bot['expiration'] <= self.time and not t['months']:
                self._refuse('bot {} is not active', t['id'])
            if not verifies(bot['pk'], t['sig'], ref.sig_hash(t, b'sender')):
                self._refuse('the signature of the bot does not verify')
        else:
            s, r = self.bots.get(t['sid']), self.bots.get(t['rid'])
            if s is None or r is None:
                self._refuse('a bot does not exist')
            if s['expiration'] <= self.time or r['expiration'] <= self.time:
                self._refuse('a bot is not active')
            if not t['names']:
                self._refuse('no name is transferred')
            if not verifies(s['pk'], t['ssig'], ref.sig_hash(t, b'sender')):
                self._refuse('the signature of the sender does not verify')
            if not verifies(r['pk'], t['rsig'], ref.sig_hash(t, b'receiver')):
                self._refuse('the signature of the receiver does not verify')

    # -------------------------------------------------------- the explorer

    def post(self, endpoint, data):
        self.requests.append(('POST', endpoint))
        if self.fault:
            self.fault('POST', endpoint)
        try:
            if endpoint != '/transactionpool/transactions':
                raise Violation('unexpected request: POST {}'.format(endpoint))
            raw = json.loads(data if isinstance(data, str) else json.dumps(data))
            self.posted.append(raw)
            try:
                t = ref.tx_parse(raw)
            except Exception as e:
                raise Violation('a submitted transaction cannot be read: {!r} ({})'.format(e, raw))
            if ref.tx_json(t) != _normal(raw):
                raise Violation('a submitted transaction is not in its specified form: {} instead of {}'.format(raw, ref.tx_json(t)))
            self.validate(t)
        except Violation as e:
            self.violation = self.violation or e
            raise
        e = Entry(t, raw)
        self._register(e)
        self.mempool.append(e)
        self.accepted.append(e)
        return json.dumps({'transactionid': e.id.hex()})

    def _none(self, endpoint):
        raise tfchain.errors.ExplorerNoContent('nothing found', endpoint)

    def get(self, endpoint):
        self.requests.append(('GET', endpoint))
        if self.fault:
            answer = self.fault('GET', endpoint)
            if answer is not None:
                return answer
        a = self.answer(endpoint)
        if self.tamper:
            a = self.tamper(endpoint, a)
        return json.dumps(a)

    def answer(self, endpoint):
        p = endpoint.strip('/').split('/')
        if p == ['explorer']:
            return {'blockid': self.block_id(self.height).hex(), 'height': self.height}
        if p[:2] == ['explorer', 'blocks'] and len(p) == 3:
            if int(p[2]) not in self.blocks:
                self._none(endpoint)
            return {'block': self.block_json(int(p[2]))}
        if p[:2] == ['explorer', 'mintcondition']:
            c = self.mint_now(int(p[2]) if len(p) > 2 else None)
            if c is None:
                self._none(endpoint)
            return {'mintcondition': ref.condition_json(c)}
        if p[:2] == ['explorer', '3bot'] and len(p) == 3:
            for b in self.bots.values():
                if p[2] in (str(b['id']), ref.pk_text(b['pk'])):
                    return {'record': self.bot_json(b)}
            self._none(endpoint)
        if p[:3] == ['explorer', 'whois', '3bot'] and len(p) == 4:
            for b in self.bots.values():
                if p[3] in b['names']:
                    return {'record': self.bot_json(b)}
            self._none(endpoint)
        if p[:2] == ['explorer', 'hashes'] and len(p) == 3:
            return self.hash_json(p[2], endpoint)
        e = Violation('unexpected request: GET {}'.format(endpoint))
        self.violation = self.violation or e
        raise e

    def bot_json(self, b):
        return {'id': b['id'], 'addresses': b['addresses'], 'names': b['names'], 'publickey': ref.pk_text(b['pk']),
                'expiration': b['expiration']}

    def block_json(self, height):
        b = self.blocks[height]
        return {'blockid': self.block_id(height).hex(), 'height': height, 'difficulty': '1000',
                'transactions': [self.entry_json(e) for e in b['txs']],
                'minerpayoutids': [ref.b2(b'payout' + ref.s_int(height) + ref.s_int(i)).hex() for i in range(len(b['payouts']))] or None,
                'rawblock': {'parentid': (self.block_id(height - 1)).hex(), 'timestamp': b['time'],
                             'minerpayouts': [{'value': str(v), 'unlockhash': ref.uh_text(u)} for v, u in b['payouts']] or None}}

    def entry_json(self, e):
        def parent(o):
            return dict(ref.output_json(o), unlockhash=addr_of(o['c']))
        return {'id': e.id.hex(), 'height': 0 if e.height is None else e.height,
                'parent': (bytes(32) if e.height is None else self.block_id(e.height)).hex(),
                'rawtransaction': copy.deepcopy(e.raw), 'hextransaction': '',
                'coininputoutputs': [parent(o) for o in e.parents] or None,
                'coinoutputids': [i.hex() for i in e.ids()] or None,
                'coinoutputunlockhashes': [addr_of(o['c']) for o in e.outputs] or None,
                'blockstakeinputoutputs': [parent(o) for o in e.bs_parents] or None,
                'blockstakeoutputids': [i.hex() for i in e.bs_ids()] or None,
                'unconfirmed': e.height is None}

    def touching(self, addr):
        out = []
        for e in self.entries:
            conds = [o['c'] for o in e.parents] + [o['c'] for o in e.outputs]
            if e.tx['ver'] == 128:
                conds.append(e.tx['mc'])
            if any(addr_of(c) == addr for c in conds):
                out.append(e)
        if self.listing == 'desc':
            out = out[::-1]
        elif self.listing == 'shuffled':
            random.Random('{}/{}'.format(self.shuffle, addr)).shuffle(out)
        return out

    def multisigs(self, addr):
        out = []
        for e in self.entries:
            for o in e.outputs:
                c = inner(o['c'])
                if c['k'] == 'ms' and addr in [ref.uh_text(u) for u in c['uhs']] and addr_of(c) not in out:
                    out.append(addr_of(c))
        return out

    def hash_json(self, h, endpoint):
        if len(h) == 78:
            txs, ms = self.touching(h), self.multisigs(h)
            if not txs and not ms and h not in self.erc20:
                self._none(endpoint)
            a = {'hashtype': 'unlockhash', 'block': {}, 'blocks': None, 'transaction': {},
                 'transactions': [self.entry_json(e) for e in txs] or None, 'multisigaddresses': ms or None, 'unconfirmed': False}
            if h in self.erc20:
                a['erc20info'] = {'tftaddress': h, 'erc20address': '0x' + ref.erc20_of(ref.uh_parse(h)).hex(),
                                  'confirmations': self.height - self.erc20[h] + 1}
            return a
        for e in self.entries:
            if e.id.hex() == h:
                return {'hashtype': 'transactionid', 'transaction': self.entry_json(e), 'block': {}, 'transactions': None, 'unconfirmed': e.height is None}
        for height in self.blocks:
            if self.block_id(height).hex() == h:
                return {'hashtype': 'blockid', 'block': self.block_json(height), 'transaction': {}, 'transactions': None}
        for kind, table in (('coinoutputid', self.outputs), ('blockstakeoutputid', self.bs_outputs)):
            rec = table.get(bytes.fromhex(h)) if len(h) == 64 else None
            if rec is not None:
                txs = [e for e in (rec['by'], rec['spent']) if e is not None]
                if self.listing == 'desc':
                    txs.reverse()
                elif self.listing == 'shuffled':
                    random.Random('{}/{}'.format(self.shuffle, h)).shuffle(txs)
                return {'hashtype': kind, 'transactions': [self.entry_json(e) for e in txs], 'block': {}, 'transaction': {}}
        self._none(endpoint)

    # -------------------------------------------------------- clients and wallets

    def client(self):
        c = TFChainClient(network_type=self.network)
        c.explorer_get = self.get
        c.explorer_post = self.post
        return c

    def wallet(self, seed, keys=1, scan=0):
        return TFChainWallet(seed=bytes(seed), key_count=keys, key_scan_count=scan, client=self.client())

    def check(self):
        """raise the first violation that was seen, even when the code under test swallowed it"""
        if self.violation is not None:
            raise self.violation

    # -------------------------------------------------------- what a balance has to say

    def sheet(self, addrs):
        """{'available': {id: value}, 'locked': .., 'unconfirmed': .., 'unconfirmed_locked': .., 'spent': .., 'unconfirmed_spent': ..}"""
        s = {k: {} for k in ('available', 'locked', 'unconfirmed', 'unconfirmed_locked', 'spent', 'unconfirmed_spent')}
        for i, rec in self.outputs.items():
            c = rec['o']['c']
            if addr_of(c) not in addrs:
                continue
            if rec['spent'] is not None:
                k = 'spent' if rec['spent'].height is not None else 'unconfirmed_spent'
            else:
                k = 'available' if rec['by'].height is not None else 'unconfirmed'
                if is_locked(c, self.height, self.time):
                    k = {'available': 'locked', 'unconfirmed': 'unconfirmed_locked'}[k]
            s[k][i.hex()] = rec['o']['v']
        return s


def _normal(raw):
    """absent, null and empty lists are the same thing, as are absent and empty data"""
    raw = copy.deepcopy(raw)
    want = ref.tx_json(ref.tx_parse(raw))

    def walk(have, spec):
        if isinstance(have, dict) and isinstance(spec, dict):
            for k in list(have):
                if k not in spec and not have[k]:
                    del have[k]
                elif k in spec and have[k] is None and spec[k] == []:
                    have[k] = []
                elif k in spec:
                    walk(have[k], spec[k])
            for k in spec:
                if k not in have and not spec[k]:
                    have[k] = spec[k]
        elif isinstance(have, list) and isinstance(spec, list):
            for a, b in zip(have, spec):
                walk(a, b)
    walk(raw, want)
    return raw
