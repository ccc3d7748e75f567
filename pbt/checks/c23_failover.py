"""C23: any healthy explorer suffices, and there are no false answers."""
import contextlib
import io
import json
import os
import socket
import threading

from hypothesis import strategies as st

from tfchain import errors
from tfchain.TFChainClient import NetworkType, TFChainClient
from tfchain.TFChainExplorerClient import TFChainExplorerClient
from tfchain.TFChainWallet import TFChainWallet

from pbt import history, ref, sim, wallets
from pbt.core import Sub, check, eq, rejects
from pbt.sim import ONE

os.environ['no_proxy'] = '*'
PATIENCE = 0.15     # seconds after which an explorer that hangs is given up here, instead of the timeout of the client


# ------------------------------------------------------------------ explorers: real HTTP on the loopback interface

class Explorer(threading.Thread):
    """a server on the loopback interface which answers as it is told"""

    def __init__(self):
        super().__init__(daemon=True)
        self.s = socket.socket()
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(16)
        self.address = 'http://127.0.0.1:%d' % self.s.getsockname()[1]
        self.reset({'k': 'drop'})
        self.start()

    def reset(self, plan):
        self.plan, self.requests, self.backend = plan, [], None

    def run(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            c.settimeout(60)
            try:
                with c:
                    self.serve(c)
            except OSError:
                pass

    def serve(self, c):
        plan = self.plan
        if plan['k'] == 'drop' and not plan.get('late'):
            self.requests.append(None)
            return
        data = b''
        while b'\r\n\r\n' not in data:
            more = c.recv(65536)
            if not more:
                return
            data += more
        head, body = data.split(b'\r\n\r\n', 1)
        lines = head.decode('latin-1').split('\r\n')
        headers = {k.lower(): v.strip() for k, v in (l.split(':', 1) for l in lines[1:])}
        while len(body) < int(headers.get('content-length', 0)):
            body += c.recv(65536)
        method, path = lines[0].split(' ')[:2]
        self.requests.append((method, path, headers, body))
        k = plan['k']
        if k == 'drop':
            return
        if k == 'hang':
            if plan.get('late'):
                c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\n{"a')
            with contextlib.suppress(OSError):
                c.recv(1)       # (until the client goes away)
            return
        if k == 'garbage':
            c.sendall(plan['bytes'])
            return
        if self.backend is not None and k == 'good':
            code, out = self.backend(method, path, body)
        else:
            code, out = plan.get('code', 200), plan['body']
        cut = plan.get('cut')
        framing = plan.get('framing', 'length')
        answer = ('HTTP/1.1 %d Whatever\r\nContent-Type: application/json\r\nConnection: close\r\n' % code).encode()
        if code == 204:
            answer += b'\r\n'
        elif framing == 'chunked':
            half = len(out) // 2
            chunks = [b'%x\r\n%s\r\n' % (len(x), x) for x in (out[:half], out[half:]) if x]
            answer += b'Transfer-Encoding: chunked\r\n\r\n' + b''.join(chunks[:1] if cut else chunks + [b'0\r\n\r\n'])
        elif framing == 'close' and not cut:
            answer += b'\r\n' + out
        else:
            answer += b'Content-Length: %d\r\n\r\n' % len(out) + (out[:len(out) * cut // 8] if cut else out)
        c.sendall(answer)


class Refusing:
    """nobody listens at this address"""

    def __init__(self):
        self.s = socket.socket()
        self.s.bind(('127.0.0.1', 0))
        self.address = 'http://127.0.0.1:%d' % self.s.getsockname()[1]


servers = {}


def explorer(n):
    k = (os.getpid(), n)
    if k not in servers:
        servers[k] = Refusing() if n == 'refuse' else Explorer()
    return servers[k]


def forget(gone):
    for k in [k for k, s in servers.items() if s in gone]:
        del servers[k]
    for s in gone:
        s.s.shutdown(socket.SHUT_RDWR)
        s.s.close()


NONSENSE = ['nothing://here', 'http://', 'http://127.0.0.1:1']

json_value = st.recursive(st.one_of(st.integers(-5, 5), st.text(max_size=8), st.none(), st.booleans()), lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(st.text(max_size=4), s, max_size=3)), max_leaves=6)
body = st.one_of(st.binary(max_size=40), st.integers(1, 8), json_value.map(lambda v: json.dumps(v).encode()), json_value.map(lambda v: json.dumps({'a': v}, indent=1).encode() + b'\n'),
                 st.sampled_from([b'', b'\n', b'{}\n', b'\r\n', b'{"a":\n1}\n']), st.integers(1000, 200000).map(lambda n: n)).map(lambda b: b if isinstance(b, bytes) else b'[%s]' % (b'7,' * (b // 2) + b'7'))
framing = st.sampled_from(['length', 'length', 'chunked', 'close'])
good = st.fixed_dictionaries({'k': st.just('good'), 'body': body, 'framing': framing})
status = st.fixed_dictionaries({'k': st.just('status'), 'code': st.sampled_from([400, 401, 403, 404, 429, 500, 500, 502, 503, 504]), 'framing': framing, 'cut': st.sampled_from([None, None, None, 4]),
                                'body': st.one_of(st.sampled_from([b'{"message":"no"}\n', b'', b'<html>Bad Gateway</html>', b'{"message":"transaction pool is full"}']), st.binary(min_size=1, max_size=20).filter(lambda b: b'found' not in b))})
odd = st.fixed_dictionaries({'k': st.just('status'), 'code': st.sampled_from([201, 202, 203, 206]), 'framing': framing, 'body': st.just(b'{"message":"?"}')})
nothing = st.one_of(st.just({'k': 'none', 'code': 204, 'body': b''}),
                    st.fixed_dictionaries({'k': st.just('none'), 'code': st.just(400), 'framing': framing,
                                           'body': st.sampled_from([b'{"message":"unrecognized hash used as input to /explorer/hash"}\n', b'block not found', b'{"message":"3bot not found"}', b'\xff unrecognized hash', b'not found',
                                                                    b'{"message":"' + b'x' * 5000 + b': unrecognized hash"}'])}))
unreachable = st.one_of(st.just({'k': 'refuse'}), st.just({'k': 'refuse'}), st.fixed_dictionaries({'k': st.just('drop'), 'late': st.booleans()}),
                        st.fixed_dictionaries({'k': st.just('garbage'), 'bytes': st.sampled_from([b'\0\1\2', b'SSH-2.0-OpenSSH\r\n', b'HTTP/1.1 abc\r\n\r\n', b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n'])}),
                        st.fixed_dictionaries({'k': st.just('cut'), 'body': st.binary(min_size=8, max_size=60), 'framing': st.sampled_from(['length', 'length', 'chunked']), 'cut': st.sampled_from([1, 4, 7])}),
                        st.fixed_dictionaries({'k': st.just('cut'), 'body': st.just(b'{"a": 1}\n{"b": 2}'), 'framing': st.just('length'), 'cut': st.just(5)}),
                        st.fixed_dictionaries({'k': st.just('nonsense'), 'n': st.integers(0, len(NONSENSE) - 1)}))
hang = st.fixed_dictionaries({'k': st.just('hang'), 'late': st.booleans()})
# (an explorer that hangs takes its time, so there are few of them)
quick_bad = st.one_of(*[unreachable] * 3, status, status, odd)
bad = st.one_of(*[unreachable] * 12, status, status, status, status, status, odd, hang)


def kind(p):
    return {'good': 'good', 'none': 'none', 'status': 'status'}.get(p['k'], 'unreachable')


@contextlib.contextmanager
def explorers(plans):
    """the addresses of explorers with these plans, and the explorers; connections have to have a timeout"""
    servers = [explorer(n if p['k'] not in ('refuse', 'nonsense') else 'refuse') for n, p in enumerate(plans)]
    for s, p in zip(servers, plans):
        if isinstance(s, Explorer):
            s.reset(p)
    addresses = [NONSENSE[p['n']] if p['k'] == 'nonsense' else s.address for s, p in zip(servers, plans)]
    real = socket.create_connection
    patient = []
    hanging = [s for s, p in zip(servers, plans) if p['k'] == 'hang']
    ports = [s.s.getsockname()[1] for s in hanging]

    def connect(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, *args, **kwargs):
        if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
            timeout = socket.getdefaulttimeout()
        if timeout is None or timeout > 600:
            patient.append(timeout)
        return real(address, PATIENCE if address[1] in ports else 30, *args, **kwargs)
    socket.create_connection = connect
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield addresses, servers
    finally:
        socket.create_connection = real
        forget(hanging)     # (late connections to these would be taken for those of another case)
    check(not patient, 'the client waits without limit for an explorer which does not answer')


def asked(servers):
    return [s.requests if isinstance(s, Explorer) else [] for s in servers]


def outcome(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


# ------------------------------------------------------------------ requests

endpoint = st.sampled_from(['/explorer', '/explorer/constants', '/explorer/blocks/5', '/explorer/hashes/' + 'ab' * 32, '/explorer/whois/3bot/a.b', '/transactionpool/transactions'])
plans = st.one_of(st.lists(st.one_of(good, nothing, bad, bad, bad), min_size=1, max_size=4), st.tuples(st.lists(bad, max_size=3), good, st.integers(0, 3)).map(lambda t: t[0][:t[2]] + [t[1]] + t[0][t[2]:]),
                  # many explorers, of which one answers, if any
                  st.tuples(st.lists(quick_bad, min_size=4, max_size=10), st.lists(st.one_of(good, nothing), max_size=1), st.integers(0, 10)).map(lambda t: t[0][:t[2]] + t[1] + t[0][t[2]:]))
GET = st.fixed_dictionaries({'plans': plans, 'endpoint': endpoint, 'times': st.integers(1, 2)})
payload = st.one_of(st.dictionaries(st.text(max_size=5), json_value, max_size=4), st.text(min_size=1, max_size=30), st.binary(min_size=1, max_size=40), st.sampled_from([{'version': 1, 'data': {'a': ['1', 'ö', None]}}, '{"version": 1}', b'{"version":1}']))
POST = st.fixed_dictionaries({'plans': plans, 'endpoint': endpoint, 'data': payload})


def getting(case, ctx):
    plans = case['plans']
    with explorers(plans) as (addresses, servers):
        c = TFChainExplorerClient(addresses=list(addresses))
        for _ in range(case['times'] if not any(p['k'] == 'hang' for p in plans) else 1):
            for s in servers:
                if isinstance(s, Explorer):
                    s.requests = []
            got, e = outcome(lambda: c.get(case['endpoint']))
            judge(case, plans, servers, got, e, 'GET', ctx)
    eq(c.addresses, addresses, 'addresses of the explorers')


def judge(case, plans, servers, got, e, method, ctx, count=True):
    kinds = [kind(p) if method == 'GET' or kind(p) != 'none' else 'status' for p in plans]
    seen = asked(servers)
    for p, r in zip(plans, seen):
        check(len(r) <= 1, 'an explorer is asked {} times', len(r))
        for x in r:
            if x is not None:
                eq(x[:2], (method, case['endpoint']), 'request')
                eq(x[2].get('user-agent'), 'Rivine-Agent', 'user agent')
    finals = [n for n, k in enumerate(kinds) if k in ('good', 'none') and seen[n]]
    check(len(finals) <= 1, 'an explorer was asked although another one had answered')
    if isinstance(got, (bytes, bytearray, str)):
        check(finals, 'an answer out of nowhere: {!r}', got)
        n = finals[0]
        eq(kinds[n], 'good', 'kind of the answer')
        eq(got.encode() if isinstance(got, str) else bytes(got), plans[n]['body'], 'answer')
    elif 'good' in kinds or 'none' in kinds:
        check(finals and kinds[finals[0]] == 'none', 'explorers {} answer, but the result is {!r}', [n for n, k in enumerate(kinds) if k in ('good', 'none')], e if e is not None else got)
        check(isinstance(e, errors.ExplorerNoContent), 'nothing was found, but the result is {!r}', e if e is not None else got)
    elif 'status' in kinds:
        check(isinstance(e, errors.ExplorerServerError if method == 'GET' else errors.ExplorerServerPostError), 'explorers report a failure, but the result is {!r}', e if e is not None else got)
    else:
        check(isinstance(e, errors.ExplorerNotAvailable), 'no explorer can be reached, but the result is {!r}', e if e is not None else got)
        eq(len(e.addresses), len(plans), 'addresses of the explorers that cannot be reached')
    if e is not None:
        eq(e.endpoint, case['endpoint'], 'endpoint of the error')
    if not count:
        return
    ctx.nontrivial(len(plans) > 1 and (e is not None or len(set(kinds)) > 1))
    ctx.label('{}: {}'.format(method, type(e).__name__ if e is not None else 'answered after {} failures'.format(sum(len(x) for x in seen) - 1 if 'unreachable' in kinds or 'status' in kinds else 0)))
    for p in plans:
        ctx.label('explorer: ' + p['k'])


def posting(case, ctx):
    plans = case['plans']
    with explorers(plans) as (addresses, servers):
        c = TFChainExplorerClient(addresses=addresses)
        data = case['data']
        got, e = outcome(lambda: c.post(case['endpoint'], data))
        judge(case, plans, servers, got, e, 'POST', ctx)
        for p, r in zip(plans, asked(servers)):
            for x in r:
                if x is None:
                    continue
                eq(x[2].get('content-type'), 'application/json', 'content type')
                if isinstance(data, dict):
                    eq(json.loads(x[3].decode()), data, 'posted data')
                else:
                    eq(x[3], data.encode() if isinstance(data, str) else data, 'posted data')


# ------------------------------------------------------------------ one client, over time

step = st.fixed_dictionaries({'m': st.sampled_from(['GET', 'GET', 'POST']), 'endpoint': endpoint, 'data': payload, 'who': st.integers(0, 1), 'turn': st.integers(0, 3)})
lasting = st.fixed_dictionaries({'plans': st.lists(st.one_of(good, nothing, quick_bad, quick_bad), min_size=1, max_size=4), 'steps': st.lists(st.tuples(step, st.lists(st.one_of(st.none(), st.none(), good, nothing, quick_bad), min_size=4, max_size=4)), min_size=2, max_size=8)})


def changing(case, ctx):
    """explorers come and go: what happened before a request has no influence on it"""
    still = ('refuse', 'nonsense')
    plans = list(case['plans'])
    with explorers(plans) as (addresses, servers):
        given = list(addresses)
        clients = [TFChainExplorerClient(addresses=given), TFChainExplorerClient(addresses=given)]
        failed = answered = 0
        for s, changes in case['steps']:
            for n, c in enumerate(changes[:len(plans)]):
                if c is not None and c['k'] not in still and isinstance(servers[n], Explorer):
                    plans[n] = c
            for x, p in zip(servers, plans):
                if isinstance(x, Explorer):
                    x.reset(p)
            c = clients[s['who']]
            got, e = outcome(lambda: c.get(s['endpoint']) if s['m'] == 'GET' else c.post(s['endpoint'], s['data']))
            judge(s, plans, servers, got, e, s['m'], ctx, count=False)
            answered += e is None and failed > 0
            failed += e is not None
            eq([x.addresses for x in clients], [addresses] * 2, 'addresses of the explorers')
            eq(given, addresses, 'list of addresses that was given')
        ctx.nontrivial(answered > 0)
        ctx.label('{} answers after {} failures'.format(answered, failed))


def spread(case, ctx):
    """no explorer is left out for good"""
    ctx.nontrivial()
    with explorers([{'k': 'good', 'body': b'{}'}] * case['n']) as (addresses, servers):
        c = TFChainExplorerClient(addresses=addresses)
        for _ in range(120):
            c.get('/x') if case['m'] == 'GET' else c.post('/x', '{}')
            if all(s.requests for s in servers):
                break
        check(all(s.requests for s in servers), 'of {} requests none went to some of the explorers: {}', 120, [len(s.requests) for s in servers])


# ------------------------------------------------------------------ a wallet over flaky explorers

def backend(chain):
    """what an explorer of this chain answers: (status, body)"""
    def answer(method, path, body):
        try:
            r = chain.get(path) if method == 'GET' else chain.post(path, body.decode())
        except errors.ExplorerNoContent:
            return 400, b'{"message":"unrecognized hash used as input to /explorer/hash"}\n'
        except sim.Violation as e:
            return 400, json.dumps({'message': str(e)}).encode()
        return 200, (r + '\n').encode()
    return answer


walleting_st = st.fixed_dictionaries({'plans': st.tuples(st.lists(unreachable, max_size=2), good, st.integers(0, 2)).map(lambda t: t[0][:t[2]] + [t[1]] + t[0][t[2]:]),
                                      'ops': st.lists(history.op, min_size=1, max_size=5), 'amount': st.integers(1, 10 * ONE), 'to': wallets.recipient, 'network': st.sampled_from(['testnet', 'standard', 'devnet'])})


def walleting(case, ctx):
    """a wallet that reaches its chain only through one healthy explorer among others sees and does the same as always"""
    chain = sim.Chain(network=case['network'])
    chain.grant([{'v': 20 * ONE, 'c': {'k': 'uh', 'uh': history.party(0).uh}}])
    for o in case['ops']:
        history.play(chain, o)
    with explorers(case['plans']) as (addresses, servers):
        for p, s in zip(case['plans'], servers):
            if p['k'] == 'good':
                s.backend = backend(chain)
                s.plan = dict(p, framing=p['framing'])
        w = TFChainWallet(seed=history.SEED, key_count=4, client=TFChainClient(explorer_client=TFChainExplorerClient(addresses=addresses), network_type=case['network']))
        plain = chain.wallet(history.SEED, 4, scan=-1)
        eq(w.addresses, plain.addresses, 'addresses')
        a, b = w.balance, plain.balance
        for k in ('available', 'locked', 'unconfirmed', 'unconfirmed_locked'):
            eq(getattr(a, k).json(), getattr(b, k).json(), 'balance: ' + k)
        eq(sorted(str(t.id) for t in w.transactions), sorted(str(t.id) for t in plain.transactions), 'transactions')
        info = w.client.blockchain_info_get()
        eq([info.height, info.timestamp], [chain.height, chain.time], 'chain info')
        want = sum(int(getattr(b, k).json()) for k in ('available', 'unconfirmed'))
        r, e = outcome(lambda: w.coins_send(wallets.recipient_arg(chain, case['to'], 2), wallets.amount_arg(case['amount'], 'currency')))
        chain.check()
        if want >= case['amount'] + chain.min_fee and e is None:
            check(r.submitted and len(chain.accepted) == 1, 'coins were not sent')
            eq(str(r.transaction.id), chain.accepted[0].id.hex(), 'id of the transaction')
            out = chain.accepted[0].tx['co'][0]
            eq(out, {'v': case['amount'], 'c': history.condition(chain, case['to'])}, 'output')
            ctx.nontrivial()
            ctx.label('sent')
        elif e is not None:
            check(isinstance(e, errors.InsufficientFunds), 'sending over several explorers: {!r}', e)


# ------------------------------------------------------------------ which network

NETWORKS = {'standard': 'standard', 'testnet': 'testnet', 'devnet': 'devnet'}


def network(case, ctx):
    """a client learns from its explorers which network they belong to"""
    ctx.nontrivial()
    name = case['name']
    body = {'chaininfo': {'Name': 'tfchain', 'NetworkName': name}} if name is not None else {}
    with explorers(case['bad'] + [{'k': 'good', 'body': json.dumps(body).encode(), 'framing': 'length'}]) as (addresses, servers):
        x = TFChainExplorerClient(addresses=addresses)
        if case['stated']:
            c = TFChainClient(explorer_client=x, network_type=case['stated'])
            want = case['stated']
            eq([r for r in asked(servers) if r], [], 'requests for a network that is known')
        elif name in ('mainnet', 'x', ''):
            rejects(lambda: TFChainClient(explorer_client=x), 'network {!r}'.format(name))
            return
        else:
            c = TFChainClient(explorer_client=x)
            want = name or 'standard'
        eq(int(c.minimum_miner_fee.json()), sim.FEES[want], 'minimum miner fee of ' + want)
        eq(c.explorer_addresses, addresses, 'addresses')
        for n in NETWORKS:
            eq([c.network == NetworkType.from_str(n), c.network != NetworkType.from_str(n)], [n == want, n != want], 'network is ' + n)
    # without explorers of its own, a client uses those of its network
    want = case['stated'] or 'standard'
    for c in [TFChainClient(network_type=want), TFChainClient(network_type=want.upper())] + ([TFChainClient(), TFChainClient(network_type='std')] if want == 'standard' else []):
        known = c.explorer_addresses
        check(known and len(set(known)) == len(known), 'explorers of {}: {}', want, known)
        for a in known:
            kind = 'devnet' if 'localhost' in a or '127.0.0.1' in a else 'testnet' if 'testnet' in a else 'standard'
            eq(kind, want, 'network of the explorer ' + a)
        eq(int(c.minimum_miner_fee.json()), sim.FEES[want], 'minimum miner fee of ' + want)
    # wallets are of the network of their client
    ws = [(n, TFChainWallet(seed=history.SEED, key_scan_count=0, client=TFChainClient(network_type=n))) for n in [want] + sorted(NETWORKS)]
    for n, w in ws:
        for m in NETWORKS:
            eq(w.network_type == NetworkType.from_str(m), m == n, 'a wallet of {} is one of {}'.format(n, m))
    w = TFChainWallet(seed=history.SEED, key_scan_count=0)
    eq([m for m in sorted(NETWORKS) if w.network_type == NetworkType.from_str(m)], ['standard'], 'network of a wallet without a stated client')
    eq([sorted(w.client.explorer_addresses), int(w.client.minimum_miner_fee.json())], [sorted(TFChainClient(network_type='standard').explorer_addresses), sim.FEES['standard']], 'explorers and fee of a wallet without a stated client')
    for x in (5, 'standard', TFChainExplorerClient(addresses=addresses), {}):
        rejects(lambda: TFChainWallet(seed=history.SEED, client=x), 'a wallet with the client {!r}'.format(type(x)))
    eq(len({str(sorted(TFChainClient(network_type=t).explorer_addresses)) for t in NETWORKS}), 3, 'explorers of the networks')


BAD_ADDRESSES = [None, '', 'http://127.0.0.1:1', [], {}, 5, (), ('http://127.0.0.1:1',), b'x']
BAD_DATA = [None, 5, 1.5, [], ['a'], True]


def bad_requests(case, ctx):
    ctx.nontrivial()
    for a in BAD_ADDRESSES:
        rejects(lambda: TFChainExplorerClient(addresses=a), 'explorers {!r}'.format(a))
    with explorers([{'k': 'good', 'body': b'{}'}]) as (addresses, servers):
        for a in (5, None, b'http://127.0.0.1'):
            rejects(lambda: TFChainExplorerClient(addresses=[a]).get('/explorer'), 'getting from explorer {!r}'.format(a))
            rejects(lambda: TFChainExplorerClient(addresses=[a]).post('/explorer', '{}'), 'posting to explorer {!r}'.format(a))
        for d in BAD_DATA:
            rejects(lambda: TFChainExplorerClient(addresses=addresses).post('/x', d), 'posting {!r}'.format(d))
        eq(asked(servers), [[]], 'requests')


SUBS = [
    Sub('getting', GET, getting, 1500, 15000, 'several explorers, of different states, or none that answers'),
    Sub('posting', POST, posting, 1000, 10000, 'several explorers, of different states, or none that answers'),
    Sub('changing', lasting, changing, 400, 4000, 'a request was answered after another one had failed'),
    Sub('spread', st.fixed_dictionaries({'n': st.integers(2, 4), 'm': st.sampled_from(['GET', 'POST'])}), spread, 8, 20, 'every case', shards=1),
    Sub('walleting', walleting_st, walleting, 120, 1500, 'coins were sent'),
    Sub('network', st.fixed_dictionaries({'name': st.sampled_from(['standard', 'testnet', 'devnet', None, 'mainnet', 'x', '']), 'stated': st.sampled_from([None, None, 'standard', 'testnet', 'devnet']), 'bad': st.lists(unreachable, max_size=2)}), network, 60, 300, 'every case', shards=1),
    Sub('bad_requests', st.just({}), bad_requests, 1, 1, 'every case', shards=1),
]
