"""
Independent reference model of the TFChain data formats, over plain data.

Written from the format documents (Sia/Rivine binary encoding, TFChain transactions) and cross-checked against the
network vectors which the repository's tests hold (see pbt/checks/c08_*). It imports nothing of the code under test.

Plain forms:
    unlock hash   [type, 32 bytes]
    public key    [specifier (0 nil, 1 ed25519), 32 bytes]
    currency      int, in 10^-9 TFT
    condition     {'k': 'nil'} | {'k': 'uh', 'uh': UH} | {'k': 'swap', 's': UH, 'r': UH, 'hs': bytes, 'lt': int}
                  | {'k': 'lock', 'v': int, 'c': condition} | {'k': 'ms', 'n': int, 'uhs': [UH]}
    fulfillment   {'k': 'single', 'pk': PK, 'sig': bytes} | {'k': 'swap', 'pk', 'sig', 'secret': bytes or None}
                  | {'k': 'multi', 'pairs': [[PK, sig]]}
"""
import base64
import hashlib
import ipaddress


def b2(data):
    return hashlib.blake2b(bytes(data), digest_size=32).digest()


# ------------------------------------------------------------------ Sia encoding

def s_int(n):
    return n.to_bytes(8, 'little')


def s_slice(b):
    return s_int(len(b)) + b


def be(n):
    return n.to_bytes((n.bit_length() + 7) // 8, 'big')


def s_list(items):
    return s_int(len(items)) + b''.join(items)


# ------------------------------------------------------------------ Rivine encoding

def r_len(n):
    if n < 1 << 7:
        return (n << 1).to_bytes(1, 'little')
    if n < 1 << 14:
        return (n << 2 | 1).to_bytes(2, 'little')
    if n < 1 << 21:
        return (n << 3 | 3).to_bytes(3, 'little')
    if n < 1 << 29:
        return (n << 3 | 7).to_bytes(4, 'little')
    raise ValueError(n)


def r_len_decode(b):
    """(length, bytes used)"""
    first = b[0]
    if first & 1 == 0:
        return first >> 1, 1
    if first & 2 == 0:
        return int.from_bytes(b[:2], 'little') >> 2, 2
    if first & 4 == 0:
        return int.from_bytes(b[:3], 'little') >> 3, 3
    return int.from_bytes(b[:4], 'little') >> 3, 4


def r_slice(b):
    return r_len(len(b)) + b


def r_list(items):
    return r_len(len(items)) + b''.join(items)


class Enc:
    """The two encodings behind one face."""
    def __init__(self, sia):
        self.sia = sia

    def num(self, n):
        return n.to_bytes(8, 'little')

    def slice(self, b):
        return s_slice(b) if self.sia else r_slice(b)

    def list(self, items):
        return s_list(items) if self.sia else r_list(items)

    def currency(self, n):
        return self.slice(be(n))

    def uh(self, uh):
        return bytes([uh[0]]) + uh[1]

    def pk(self, pk):
        if self.sia:
            return (b'ed25519' if pk[0] else b'').ljust(16, b'\0') + s_slice(pk[1])
        return bytes([pk[0]]) + pk[1]

    def condition_data(self, c):
        k = c['k']
        if k == 'nil':
            return b''
        if k == 'uh':
            return self.uh(c['uh'])
        if k == 'swap':
            return self.uh(c['s']) + self.uh(c['r']) + c['hs'] + self.num(c['lt'])
        if k == 'lock':
            return self.num(c['v']) + bytes([CT[c['c']['k']]]) + self.condition_data(c['c'])
        return self.num(c['n']) + self.list([self.uh(u) for u in c['uhs']])

    def condition(self, c):
        return bytes([CT[c['k']]]) + self.slice(self.condition_data(c))

    def fulfillment_data(self, f):
        k = f['k']
        if k == 'single':
            return self.pk(f['pk']) + self.slice(f['sig'])
        if k == 'swap':
            return self.pk(f['pk']) + self.slice(f['sig']) + (f['secret'] or b'')
        return self.list([self.pk(p) + self.slice(s) for p, s in f['pairs']])

    def fulfillment(self, f):
        return bytes([FT[f['k']]]) + self.slice(self.fulfillment_data(f))

    def input(self, i):
        return i['p'] + self.fulfillment(i['f'])

    def output(self, o):
        return self.currency(o['v']) + self.condition(o['c'])


S, R = Enc(True), Enc(False)
CT = {'nil': 0, 'uh': 1, 'swap': 2, 'lock': 3, 'ms': 4}
FT = {'single': 1, 'swap': 2, 'multi': 3}


# ------------------------------------------------------------------ addresses

def uh_text(uh):
    check = b'\0' * 6 if uh[0] == 0 else b2(bytes([uh[0]]) + uh[1])[:6]
    return bytes([uh[0]]).hex() + uh[1].hex() + check.hex()


def uh_parse(text):
    raw = bytes.fromhex(text)
    return [raw[0], raw[1:33]]


def pk_text(pk):
    return ('ed25519' if pk[0] else '') + ':' + pk[1].hex()


def pk_uh(pk):
    return [1, b2(s_slice(S.pk(pk)))]


def merkle(leaves, h=b2):
    """Recursive definition (RFC 6962 shape): the left subtree holds the largest power of two below n leaves."""
    if len(leaves) == 1:
        return h(b'\0' + leaves[0])
    k = 1
    while k * 2 < len(leaves):
        k *= 2
    return h(b'\1' + merkle(leaves[:k], h) + merkle(leaves[k:], h))


def condition_uh(c):
    k = c['k']
    if k == 'nil':
        return [0, bytes(32)]
    if k == 'uh':
        return c['uh']
    if k == 'lock':
        return condition_uh(c['c'])
    if k == 'swap':
        return [2, b2(s_slice(S.condition_data(c)))]
    uhs = sorted(c['uhs'], key=uh_text)
    return [3, merkle([s_int(len(uhs))] + [S.uh(u) for u in uhs] + [s_int(c['n'])])]


def erc20_of(uh):
    return b2(S.uh(uh))[12:]


# ------------------------------------------------------------------ JSON

def condition_json(c):
    k = c['k']
    if k == 'nil':
        return {'type': 0}
    if k == 'uh':
        d = {'unlockhash': uh_text(c['uh'])}
    elif k == 'swap':
        d = {'sender': uh_text(c['s']), 'receiver': uh_text(c['r']), 'hashedsecret': c['hs'].hex(), 'timelock': c['lt']}
    elif k == 'lock':
        d = {'locktime': c['v'], 'condition': condition_json(c['c'])}
    else:
        d = {'minimumsignaturecount': c['n'], 'unlockhashes': [uh_text(u) for u in c['uhs']]}
    return {'type': CT[k], 'data': d}


def fulfillment_json(f):
    k = f['k']
    if k == 'multi':
        d = {'pairs': [{'publickey': pk_text(p), 'signature': s.hex()} for p, s in f['pairs']]}
    else:
        d = {'publickey': pk_text(f['pk']), 'signature': f['sig'].hex()}
        if k == 'swap' and f['secret'] is not None:
            d['secret'] = f['secret'].hex()
    return {'type': FT[k], 'data': d}


def input_json(i):
    return {'parentid': i['p'].hex(), 'fulfillment': fulfillment_json(i['f'])}


def output_json(o):
    return {'value': str(o['v']), 'condition': condition_json(o['c'])}


def b64(b):
    return base64.b64encode(b).decode()


# ------------------------------------------------------------------ names and network addresses

def netaddr(text):
    """(type, raw bytes, canonical text)"""
    try:
        ip = ipaddress.ip_address(text)
    except ValueError:
        return 0, text.encode(), text
    if ip.version == 4:
        return 1, ip.packed, str(ip)
    if ip.packed[:12] == b'\0' * 10 + b'\xff\xff':
        v4 = ipaddress.ip_address(ip.packed[12:])
        return 1, v4.packed, str(v4)
    return 2, ip.packed, str(ip)


def netaddr_bin(text):
    t, raw, _ = netaddr(text)
    return bytes([t | len(raw) << 2]) + raw


# ------------------------------------------------------------------ transactions
#
# tx: {'ver': n, ...}: ci, co, bi, bo (lists), fees (list), data (bytes), nonce, mf, mc, addrs, names, months, fee,
#     refund (output or None), pk, sig, id, addrs_add, ..., sid, rid, ssig, rsig, addr, value, block, txid

SPEC = {
    128: b'minter defin tx\0', 129: b'coin mint tx\0\0\0\0', 144: b'bot register tx\0', 145: b'bot recupdate tx',
    146: b'bot nametrans tx', 208: b'erc20 convert tx', 209: b'erc20 coingen tx', 210: b'erc20 addrreg tx',
}


def tx_json(t):
    v = t['ver']
    if v in (0, 1):
        d = {}
        if v == 1:
            for key, name, fn in (('ci', 'coininputs', input_json), ('co', 'coinoutputs', output_json),
                                  ('bi', 'blockstakeinputs', input_json), ('bo', 'blockstakeoutputs', output_json)):
                if t[key]:
                    d[name] = [fn(x) for x in t[key]]
        else:
            for key, name in (('ci', 'coininputs'), ('bi', 'blockstakeinputs')):
                d[name] = [{'parentid': i['p'].hex(), 'unlocker': {
                    'type': 1, 'condition': {'publickey': pk_text(i['f']['pk'])},
                    'fulfillment': {'signature': i['f']['sig'].hex()}}} for i in t[key]]
            for key, name in (('co', 'coinoutputs'), ('bo', 'blockstakeoutputs')):
                d[name] = [{'value': str(o['v']), 'unlockhash': uh_text(o['c']['uh'])} for o in t[key]]
        if t['fees']:
            d['minerfees'] = [str(f) for f in t['fees']]
        if t['data']:
            d['arbitrarydata'] = b64(t['data'])
        return {'version': v, 'data': d} if d else {'version': v}
    if v in (128, 129):
        d = {'nonce': b64(t['nonce']), 'mintfulfillment': fulfillment_json(t['mf'])}
        if v == 128:
            d['mintcondition'] = condition_json(t['mc'])
        else:
            d['coinoutputs'] = [output_json(o) for o in t['co']]
        d['minerfees'] = [str(f) for f in t['fees']]
        d['arbitrarydata'] = b64(t['data'])
        return {'version': v, 'data': d}
    if v == 209:
        return {'version': v, 'data': {
            'address': uh_text(t['addr']), 'value': str(t['value']), 'txfee': str(t['fee']),
            'blockid': '0x' + t['block'].hex(), 'txid': '0x' + t['txid'].hex()}}
    d = {'txfee': str(t['fee']), 'coininputs': [input_json(i) for i in t['ci']]}
    if t['refund'] is not None:
        d['refundcoinoutput'] = output_json(t['refund'])
    if v == 144:
        d['nrofmonths'] = t['months']
        d['identification'] = {'publickey': pk_text(t['pk']), 'signature': t['sig'].hex()}
        if t['addrs']:
            d['addresses'] = [netaddr(a)[2] for a in t['addrs']]
        if t['names']:
            d['names'] = list(t['names'])
    elif v == 145:
        d['id'] = t['id']
        d['nrofmonths'] = t['months']
        d['signature'] = t['sig'].hex()
        for key, name, fn in (('addrs', 'addresses', lambda a: netaddr(a)[2]), ('names', 'names', lambda n: n)):
            add, rem = t[key + '_add'], t[key + '_rem']
            if add or rem:
                d[name] = {}
                if add:
                    d[name]['add'] = [fn(a) for a in add]
                if rem:
                    d[name]['remove'] = [fn(a) for a in rem]
    elif v == 146:
        d['sender'] = {'id': t['sid'], 'signature': t['ssig'].hex()}
        d['receiver'] = {'id': t['rid'], 'signature': t['rsig'].hex()}
        d['names'] = list(t['names'])
    elif v == 208:
        d['address'] = '0x' + t['addr'].hex()
        d['value'] = str(t['value'])
    elif v == 210:
        d['pubkey'] = pk_text(t['pk'])
        d['tftaddress'] = uh_text(pk_uh(t['pk']))
        d['erc20address'] = '0x' + erc20_of(pk_uh(t['pk'])).hex()
        d['signature'] = t['sig'].hex()
        d['regfee'] = '10000000000'
    else:
        raise ValueError(v)
    return {'version': v, 'data': d}


def _legacy_input(i):
    return i['p'] + b'\1' + s_slice(S.pk(i['f']['pk'])) + s_slice(i['f']['sig'])


def _legacy_output(o):
    return S.currency(o['v']) + S.uh(o['c']['uh'])


def tx_body(t):
    v = t['ver']
    if v == 0:
        return s_list([_legacy_input(i) for i in t['ci']]) + s_list([_legacy_output(o) for o in t['co']]) + \
            s_list([_legacy_input(i) for i in t['bi']]) + s_list([_legacy_output(o) for o in t['bo']]) + \
            s_list([S.currency(f) for f in t['fees']]) + s_slice(t['data'])
    if v == 1:
        return s_list([S.input(i) for i in t['ci']]) + s_list([S.output(o) for o in t['co']]) + \
            s_list([S.input(i) for i in t['bi']]) + s_list([S.output(o) for o in t['bo']]) + \
            s_list([S.currency(f) for f in t['fees']]) + s_slice(t['data'])
    if v == 128:
        return t['nonce'] + S.fulfillment(t['mf']) + S.condition(t['mc']) + \
            s_list([S.currency(f) for f in t['fees']]) + s_slice(t['data'])
    if v == 129:
        return t['nonce'] + S.fulfillment(t['mf']) + s_list([S.output(o) for o in t['co']]) + \
            s_list([S.currency(f) for f in t['fees']]) + s_slice(t['data'])
    if v == 209:
        return R.uh(t['addr']) + R.currency(t['value']) + R.currency(t['fee']) + t['block'] + t['txid']
    fee, ci = R.currency(t['fee']), r_list([R.input(i) for i in t['ci']])
    refund = b'' if t['refund'] is None else R.output(t['refund'])
    if v == 144:
        flags = t['months'] | (32 if t['addrs'] else 0) | (64 if t['names'] else 0) | (128 if refund else 0)
        return bytes([flags, len(t['addrs']) | len(t['names']) << 4]) + \
            b''.join(netaddr_bin(a) for a in t['addrs']) + b''.join(r_slice(n.encode()) for n in t['names']) + \
            fee + ci + refund + R.pk(t['pk']) + t['sig']
    if v == 145:
        aa, ar, na, nr = t['addrs_add'], t['addrs_rem'], t['names_add'], t['names_rem']
        flags = t['months'] | (32 if aa or ar else 0) | (64 if na or nr else 0) | (128 if refund else 0)
        out = t['id'].to_bytes(4, 'little') + bytes([flags])
        if aa or ar:
            out += bytes([len(aa) | len(ar) << 4]) + b''.join(netaddr_bin(a) for a in aa + ar)
        if na or nr:
            out += bytes([len(na) | len(nr) << 4]) + b''.join(r_slice(n.encode()) for n in na + nr)
        return out + fee + ci + refund + r_slice(t['sig'])
    if v == 146:
        return t['sid'].to_bytes(4, 'little') + r_slice(t['ssig']) + t['rid'].to_bytes(4, 'little') + \
            r_slice(t['rsig']) + bytes([len(t['names']) | (16 if refund else 0)]) + \
            b''.join(r_slice(n.encode()) for n in t['names']) + fee + ci + refund
    pointer = b'\0' if t['refund'] is None else b'\1' + refund
    if v == 208:
        return t['addr'] + R.currency(t['value']) + fee + ci + pointer
    if v == 210:
        return R.pk(t['pk']) + r_slice(t['sig']) + R.currency(10 * 10**9) + fee + ci + pointer
    raise ValueError(v)


def tx_binary(t):
    if t['ver'] == 1:
        return b'\1' + s_slice(tx_body(t))
    return bytes([t['ver']]) + tx_body(t)


def output_ids(t, indices, blockstake=False):
    v = t['ver']
    spec = b'blstake output' if blockstake else b'coin output'
    spec = spec.ljust(15 if v == 0 else 16, b'\0')
    base = tx_binary(t) if v in (0, 1) else SPEC[v] + tx_body(t)
    return [b2(spec + base + s_int(index)) for index in indices]


def output_id(t, index, blockstake=False):
    return output_ids(t, [index], blockstake)[0]


def sig_input(t, extra=b''):
    """extra: the already encoded extra objects"""
    v = t['ver']
    if v == 0:
        out = extra
        for i in t['ci']:
            out += i['p'] + S.uh(pk_uh(i['f']['pk']))
        out += s_list([_legacy_output(o) for o in t['co']])
        for i in t['bi']:
            out += i['p'] + S.uh(pk_uh(i['f']['pk']))
        return out + s_list([_legacy_output(o) for o in t['bo']]) + s_list([S.currency(f) for f in t['fees']]) + \
            s_slice(t['data'])
    if v == 1:
        return b'\1' + extra + s_list([i['p'] for i in t['ci']]) + s_list([S.output(o) for o in t['co']]) + \
            s_list([i['p'] for i in t['bi']]) + s_list([S.output(o) for o in t['bo']]) + \
            s_list([S.currency(f) for f in t['fees']]) + s_slice(t['data'])
    head = bytes([v]) + SPEC[v]
    if v in (128, 129):
        body = S.condition(t['mc']) if v == 128 else s_list([S.output(o) for o in t['co']])
        return head + t['nonce'] + extra + body + s_list([S.currency(f) for f in t['fees']]) + s_slice(t['data'])
    if v == 209:
        return head + extra + S.uh(t['addr']) + S.currency(t['value']) + S.currency(t['fee']) + t['block'] + t['txid']
    fee = R.currency(t['fee'])
    ci = len(t['ci']).to_bytes(8, 'little') + b''.join(i['p'] for i in t['ci'])
    refund = b'\0' if t['refund'] is None else b'\1' + R.output(t['refund'])

    def addrs(items):
        return r_list([netaddr_bin(a) for a in items])

    def names(items):
        return r_list([r_slice(n.encode()) for n in items])
    if v == 144:
        return head + extra + addrs(t['addrs']) + names(t['names']) + bytes([t['months']]) + ci + fee + refund + R.pk(t['pk'])
    if v == 145:
        return head + t['id'].to_bytes(4, 'little') + extra + addrs(t['addrs_add']) + addrs(t['addrs_rem']) + \
            names(t['names_add']) + names(t['names_rem']) + bytes([t['months']]) + ci + fee + refund
    if v == 146:
        return head + t['sid'].to_bytes(4, 'little') + t['rid'].to_bytes(4, 'little') + extra + names(t['names']) + \
            ci + fee + refund
    if v == 208:
        return head + t['addr'] + R.currency(t['value']) + extra + ci + fee + refund
    if v == 210:
        return head + R.pk(t['pk']) + extra + ci + R.currency(10 * 10**9) + fee + refund
    raise ValueError(v)


def sig_hash(t, extra=b''):
    return b2(sig_input(t, extra))


# ------------------------------------------------------------------ JSON -> plain data (to read the network vectors)

def _pk_parse(text):
    spec, _, h = (text or ':' + '00' * 32).partition(':')
    return [1 if spec else 0, bytes.fromhex(h)]


def _cond_parse(o):
    t, d = o.get('type', 0), o.get('data', {})
    if t == 0:
        return {'k': 'nil'}
    if t == 1:
        return {'k': 'uh', 'uh': uh_parse(d['unlockhash'])}
    if t == 2:
        return {'k': 'swap', 's': uh_parse(d['sender']), 'r': uh_parse(d['receiver']),
                'hs': bytes.fromhex(d['hashedsecret']), 'lt': d['timelock']}
    if t == 3:
        return {'k': 'lock', 'v': d['locktime'], 'c': _cond_parse(d['condition'])}
    return {'k': 'ms', 'n': d['minimumsignaturecount'], 'uhs': [uh_parse(u) for u in d['unlockhashes']]}


def _ful_parse(o):
    t, d = o['type'], o['data']
    if t == 3:
        return {'k': 'multi', 'pairs': [[_pk_parse(p['publickey']), bytes.fromhex(p['signature'])] for p in d['pairs']]}
    f = {'k': 'single', 'pk': _pk_parse(d['publickey']), 'sig': bytes.fromhex(d['signature'])}
    if t == 2:
        f['k'] = 'swap'
        f['secret'] = bytes.fromhex(d['secret']) if 'secret' in d else None
    return f


def _input_parse(o):
    if 'unlocker' in o:
        u = o['unlocker']
        return {'p': bytes.fromhex(o['parentid']), 'f': {'k': 'single', 'pk': _pk_parse(u['condition']['publickey']),
                                                         'sig': bytes.fromhex(u['fulfillment']['signature'])}}
    return {'p': bytes.fromhex(o['parentid']), 'f': _ful_parse(o['fulfillment'])}


def _output_parse(o):
    if 'unlockhash' in o:
        return {'v': int(o['value']), 'c': {'k': 'uh', 'uh': uh_parse(o['unlockhash'])}}
    return {'v': int(o['value']), 'c': _cond_parse(o['condition'])}


def _hex0x(s):
    return bytes.fromhex(s[2:])


def tx_parse(o):
    v, d = o['version'], o.get('data', {})
    t = {'ver': v}
    inputs = lambda k: [_input_parse(i) for i in d.get(k) or []]
    outputs = lambda k: [_output_parse(i) for i in d.get(k) or []]
    if v in (0, 1, 128, 129):
        t['fees'] = [int(f) for f in d.get('minerfees') or []]
        t['data'] = base64.b64decode(d.get('arbitrarydata') or '')
        if v in (0, 1):
            t.update(ci=inputs('coininputs'), co=outputs('coinoutputs'), bi=inputs('blockstakeinputs'), bo=outputs('blockstakeoutputs'))
        else:
            t['nonce'] = base64.b64decode(d['nonce'])
            t['mf'] = _ful_parse(d['mintfulfillment'])
            if v == 128:
                t['mc'] = _cond_parse(d['mintcondition'])
            else:
                t['co'] = outputs('coinoutputs')
        return t
    t['fee'] = int(d['txfee'])
    if v == 209:
        t.update(addr=uh_parse(d['address']), value=int(d['value']), block=_hex0x(d['blockid']), txid=_hex0x(d['txid']))
        return t
    t['ci'] = inputs('coininputs')
    t['refund'] = _output_parse(d['refundcoinoutput']) if 'refundcoinoutput' in d else None
    if v == 144:
        t.update(addrs=d.get('addresses') or [], names=d.get('names') or [], months=d['nrofmonths'],
                 pk=_pk_parse(d['identification']['publickey']), sig=bytes.fromhex(d['identification']['signature']))
    elif v == 145:
        a, n = d.get('addresses') or {}, d.get('names') or {}
        t.update(id=d['id'], months=d['nrofmonths'], sig=bytes.fromhex(d['signature']), addrs_add=a.get('add') or [],
                 addrs_rem=a.get('remove') or [], names_add=n.get('add') or [], names_rem=n.get('remove') or [])
    elif v == 146:
        t.update(sid=d['sender']['id'], rid=d['receiver']['id'], ssig=bytes.fromhex(d['sender']['signature']),
                 rsig=bytes.fromhex(d['receiver']['signature']), names=d['names'])
    elif v == 208:
        t.update(addr=_hex0x(d['address']), value=int(d['value']))
    elif v == 210:
        t.update(pk=_pk_parse(d['pubkey']), sig=bytes.fromhex(d['signature']))
    return t


def check_vectors(path):
    """The reference reproduces the network vectors; raises otherwise."""
    import json
    with open(path) as f:
        vectors = json.load(f)
    extra = {'0': s_int(0), '1': s_int(1), '42': s_int(42), 'BotTransactionBaseClass.SPECIFIER_SENDER': b'sender',
             'BotTransactionBaseClass.SPECIFIER_RECEIVER': b'receiver'}
    n = 0
    for vec in vectors:
        t = tx_parse(vec['json'])
        pairs = [('sig ' + a, sig_hash(t, extra[a]).hex(), h) for a, h in vec['sig']]
        if vec['bin']:
            pairs.append(('binary', tx_binary(t).hex(), vec['bin']))
        pairs += [('coin id', output_id(t, int(i)).hex(), h) for i, h in vec['coin'].items()]
        pairs += [('blockstake id', output_id(t, int(i), True).hex(), h) for i, h in vec['bs'].items()]
        for what, got, want in pairs:
            if got != want:
                raise ValueError('reference disagrees with the network vector: v{} {}\n{}\n{}'.format(t['ver'], what, got, want))
            n += 1
    return n
