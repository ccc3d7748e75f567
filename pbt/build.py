"""Plain data -> objects of the code under test, through its public constructors and setters."""
import json

from tfchain.types import ConditionTypes, FulfillmentTypes, transactions
from tfchain.types.ConditionTypes import UnlockHash, UnlockHashType
from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
from tfchain.types.IO import CoinInput, CoinOutput, BlockstakeInput, BlockstakeOutput
from tfchain.types.PrimitiveTypes import Currency, Hash, BinaryData, Blockstake

from pbt import ref

UHT = [UnlockHashType.NIL, UnlockHashType.PUBLIC_KEY, UnlockHashType.ATOMIC_SWAP, UnlockHashType.MULTI_SIG]


def uh(u):
    return UnlockHash(type=UHT[u[0]], hash=u[1])


def pk(p):
    return PublicKey(specifier=PublicKeySpecifier.ED25519 if p[0] else PublicKeySpecifier.NIL, hash=p[1])


def units(n):
    return Currency.from_json(str(n))


def cond(c):
    k = c['k']
    if k == 'nil':
        return ConditionTypes.nil_new()
    if k == 'uh':
        return ConditionTypes.unlockhash_new(uh(c['uh']))
    if k == 'swap':
        return ConditionTypes.atomic_swap_new(sender=uh(c['s']), receiver=uh(c['r']), hashed_secret=c['hs'], lock_time=c['lt'])
    if k == 'lock':
        return ConditionTypes.locktime_new(lock=c['v'], condition=cond(c['c']))
    return ConditionTypes.multi_signature_new(min_nr_sig=c['n'], unlockhashes=[uh(u) for u in c['uhs']])


def ful(f):
    k = f['k']
    if k == 'single':
        if not f['sig']:
            return FulfillmentTypes.single_signature_new()
        return FulfillmentTypes.single_signature_new(pub_key=pk(f['pk']), signature=f['sig'])
    if k == 'swap':
        return FulfillmentTypes.atomic_swap_new(pub_key=pk(f['pk']), signature=f['sig'], secret=f['secret'])
    return FulfillmentTypes.multi_signature_new(pairs=[(pk(p), s) for p, s in f['pairs']])


def coin_output(o):
    return CoinOutput(value=units(o['v']), condition=cond(o['c']))


def tx(t):
    v = t['ver']
    if v == 0:
        return transactions.from_json(ref.tx_json(t))
    new = {1: transactions.new, 128: transactions.mint_definition_new, 129: transactions.mint_coin_creation_new,
           144: transactions.threebot_registration_new, 145: transactions.threebot_record_update_new,
           146: transactions.threebot_name_transfer_new, 208: transactions.erc20_convert_new,
           209: transactions.erc20_coin_creation_new, 210: transactions.erc20_address_registration_new}[v]
    x = new()
    if v == 1:
        for i in t['ci']:
            x.coin_input_add(i['p'], ful(i['f']))
        for o in t['co']:
            x.coin_output_add(units(o['v']), cond(o['c']))
        for i in t['bi']:
            x.blockstake_input_add(i['p'], ful(i['f']))
        for o in t['bo']:
            x.blockstake_output_add(o['v'], cond(o['c']))
    if v in (1, 128, 129):
        for f in t['fees']:
            x.miner_fee_add(units(f))
        x.data = t['data']
    if v in (128, 129):
        x.mint_fulfillment = ful(t['mf'])
        if v == 128:
            x.mint_condition = cond(t['mc'])
        else:
            for o in t['co']:
                x.coin_output_add(units(o['v']), cond(o['c']))
    if v == 209:
        x.address, x.value, x.transaction_fee = uh(t['addr']), units(t['value']), units(t['fee'])
        x.blockid, x.transactionid = t['block'], t['txid']
    if v in (144, 145, 146, 208, 210):
        for i in t['ci']:
            x.coin_input_add(i['p'], ful(i['f']))
        x.transaction_fee = units(t['fee'])
        if t['refund'] is not None:
            x.refund_coin_output_set(units(t['refund']['v']), cond(t['refund']['c']))
    if v == 144:
        x.addresses, x.names, x.number_of_months, x.public_key = t['addrs'], t['names'], t['months'], pk(t['pk'])
        if t['sig']:
            x.signature = t['sig']
    elif v == 145:
        x.botid, x.number_of_months = t['id'], t['months']
        x.addresses_to_add, x.names_to_add = t['addrs_add'], t['names_add']
        for a in t['addrs_rem']:
            x.address_remove(a)
        for n in t['names_rem']:
            x.name_remove(n)
        if t['sig']:
            x.signature = t['sig']
    elif v == 146:
        x.sender_botid, x.receiver_botid, x.names = t['sid'], t['rid'], t['names']
        if t['ssig']:
            x.sender_signature = t['ssig']
        if t['rsig']:
            x.receiver_signature = t['rsig']
    elif v == 208:
        x.address, x.value = t['addr'], units(t['value'])
    elif v == 210:
        x.public_key = pk(t['pk'])
        if t['sig']:
            x.signature = t['sig']
    return x



def from_text(fn, obj):
    """decode through real JSON text, the way the explorer hands it over"""
    return fn(json.loads(json.dumps(obj)))


def to_text(obj):
    return json.loads(json.dumps(obj))


def vectors():
    """transactions of the network, with their known identifiers and hashes"""
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vectors.json')) as f:
        return json.load(f)
