"""The list of properties: writes properties.jsonl and MANIFEST.json (which claims those that have a check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pbt import registry  # noqa: E402

T = 'tfchain/types/'
X = 'tfchain/types/transactions/'
W = 'tfchain/TFChainWallet.py'
C = 'tfchain/TFChainClient.py'
NETWORK = 'In-process model explorer (real client code above it); the network itself, TLS and node behaviour are not exercised.'
VALUES = 'Generated values up to the stated bounds; the reference in pbt/ref.py is trusted, and reproduces the network vectors of the repository.'


def P(id, title, statement, over, quantifier, why, files, mechanism, observe, note, technique, state=None):
    return dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files,
                mechanism=mechanism, observe=observe, note=note, technique=technique, state=state)


PROPS = [
    P('C01', 'Amounts are exact',
      'A coin amount read from text, a number or JSON is exactly the amount written, to the nine decimals a coin has, and prints and serializes back to the same amount. '
      'Sums, differences, products and comparisons of amounts are exact, in either operand order, and never change their operands. '
      'Values with more than nine decimals, negative values and text that is not an amount are refused, with the errors that say so.',
      ['inputs'], 'every amount up to 10^18 TFT, every spelling of it (with or without unit, blanks, upper or lower case), every pair of amounts',
      'the tests look at a handful of round amounts; a rounding, sign or parsing slip shows only for particular digits',
      [T + 'PrimitiveTypes.py', 'tfchain/errors.py'],
      [('Currency parsing, arithmetic and formatting', T + 'PrimitiveTypes.py: Currency')],
      ['Currency(...), + - * comparisons, str(), json()'], VALUES, 'property-based testing against exact integer arithmetic'),
    P('C02', 'Both binary encodings are exactly as specified',
      'The Sia and the Rivine binary encodings produce, for every integer, byte string, text, list and nested structure, exactly the specified bytes, however many values are added and in whatever grouping. '
      'Values which do not fit the requested width, or cannot be encoded, are refused instead of truncated.',
      ['inputs'], 'every sequence of encoder operations over integers around each width, slices up to and beyond each length-prefix boundary, nested lists and objects',
      'the tests encode a few dozen fixed values; length-prefix boundaries and mixed sequences are not reached',
      ['tfchain/encoders/sia.py', 'tfchain/encoders/rivine.py'],
      [('SiaBinaryEncoder', 'tfchain/encoders/sia.py'), ('RivineBinaryEncoder', 'tfchain/encoders/rivine.py')],
      ['encoder.data after add, add_all, add_int*, add_array, add_slice'], VALUES, 'property-based testing against a reference encoder'),
    P('C03', 'Addresses round-trip, and a mistyped address is refused',
      'Every wallet, multi-signature, atomic-swap and bridge (ERC20) address prints to its specified text and reads back, from any accepted form, to the same address; the address of a public key is its specified hash. '
      'A text with a wrong checksum, a wrong length or foreign characters is refused, so no single mistyped character yields another valid address.',
      ['inputs'], 'every address of every kind, and every one-place change (substitution, deletion, insertion, transposition) of its text',
      'tests hold a few addresses; the promise is about every corruption of every address',
      [T + 'ConditionTypes.py', T + 'CryptoTypes.py', T + 'ERC20.py'],
      [('UnlockHash.from_json / __str__', T + 'ConditionTypes.py'), ('PublicKey.unlockhash', T + 'CryptoTypes.py'), ('ERC20Address', T + 'ERC20.py')],
      ['from_json, str, ==, hash'], VALUES, 'property-based testing: round trips, corruption, reference hashes'),
    P('C04', 'A wallet is a function of its seed',
      'A wallet restored from its seed phrase, or from the raw seed behind it, owns the same keys and addresses in the same order as the original, each being the specified derivation from seed and index. '
      'Each key signs with a signature that the public key of its address verifies, addresses and keys never repeat, and a phrase with a wrong word or checksum is refused. Whoever gave the seed may change or clear it afterwards.',
      ['inputs', 'histories'], 'every seed, every number of keys, every order of address, public-key and key look-ups',
      'tests use one fixed phrase and a few keys',
      [W, T + 'CryptoTypes.py'],
      [('key derivation', W + ': TFChainWallet._key_pair_new'), ('seed phrase', W + ': TFChainWallet.__init__'), ('SpendableKey', W)],
      ['wallet.mnemonic, seed, addresses, address_new, public_key_new, key_pair_get'], NETWORK, 'property-based testing against a reference derivation'),
    P('C05', 'Spending conditions keep their meaning',
      'Every spending condition (free-for-all, address, multi-signature, time lock, atomic swap) has exactly its specified JSON, binary forms and address, and reads back to the same condition. '
      'Two different conditions never share an encoding, every documented way of naming a recipient yields the condition it stands for, and malformed conditions are refused.',
      ['inputs'], 'every condition, including locks around every other kind, with up to 6 owners and any lock or signature count',
      'tests encode one or two conditions of each kind',
      [T + 'ConditionTypes.py'],
      [('condition classes and from_json', T + 'ConditionTypes.py'), ('from_recipient', T + 'ConditionTypes.py')],
      ['from_json, json, binary encodings, unlockhash, from_recipient'], VALUES, 'property-based testing against a reference model'),
    P('C06', 'Multi-signature addresses depend on owners and count only',
      'The address of a multi-signature wallet is the specified Merkle root of its owners and required signature count: it does not depend on the order in which the owners are listed, and changes with any owner or the count. '
      'The Merkle root of any list of leaves is the specified one, also when leaves are pushed one at a time.',
      ['inputs'], 'every list of up to 8 owners in every order; every list of up to 70 leaves',
      'tests compute a handful of roots; the tree has a different shape for each number of leaves',
      ['tfchain/crypto/merkletree.py', T + 'ConditionTypes.py'],
      [('Tree.push / root', 'tfchain/crypto/merkletree.py'), ('ConditionMultiSignature.unlockhash', T + 'ConditionTypes.py')],
      ['Tree.root, unlockhash of the condition'], VALUES, 'property-based testing against a recursive Merkle definition'),
    P('C07', 'Fulfillments keep their meaning, and no key counts twice',
      'Every proof of authority (single signature, multi-signature, atomic swap) has exactly its specified JSON and binary forms and reads back to the same proof; malformed ones are refused. '
      'A key can sign a multi-signature proof once only, a proof fulfills its condition exactly when enough signatures are present, and only proofs of the kind that a condition asks for are accepted for it.',
      ['inputs', 'histories'], 'every proof, every sequence of up to 6 signatures by up to 4 keys against every required count',
      'tests encode one proof of each kind',
      [T + 'FulfillmentTypes.py'],
      [('fulfillment classes', T + 'FulfillmentTypes.py')],
      ['from_json, json, binary encodings, signature_add, is_fulfilled'], VALUES, 'property-based testing against a reference model'),
    P('C08', 'Transactions survive JSON',
      'A transaction of any version, decoded from JSON text (or constructed), holds exactly the written content, serializes to the specified JSON, and decodes from that to an equal transaction; absent, null and empty lists mean the same. '
      'Transactions are equal exactly when their identifiers are, or without identifiers when their contents are, and unknown versions are reported as such. '
      'Inputs and outputs copied from one transaction to another keep their content.',
      ['inputs'], 'every transaction of every version (0, 1, 128, 129, 144, 145, 146, 208, 209, 210) with up to 4 inputs and outputs',
      'tests decode one or two fixed transactions per version',
      [X + 'Transactions.py', X + 'Base.py', X + 'Standard.py', X + 'Minting.py', X + 'ThreeBot.py', X + 'ERC20.py', T + 'IO.py'],
      [('transactions.from_json', X + 'Transactions.py'), ('_from_json_data_object / _json_data_object', X + '*.py')],
      ['from_json, json, properties, ==, hash'], VALUES, 'property-based testing: round trips against a reference serializer'),
    P('C09', 'Transaction bytes and output identifiers are as specified',
      'The binary form of every transaction, and the identifier of every coin and blockstake output in it, are exactly the specified ones; asking for an output that does not exist is refused. '
      'Different transactions have different binary forms, and no two outputs share an identifier.',
      ['inputs'], 'every transaction of every version, every output index including out-of-range ones',
      'tests hold a few identifiers; a wrong one makes the wallet spend or watch an output which is not there',
      [X + 'Base.py', X + 'Standard.py', X + 'Minting.py', X + 'ThreeBot.py', X + 'ERC20.py', T + 'IO.py'],
      [('binary_encode', X + '*.py'), ('coin_outputid_new / blockstake_outputid_new', X + 'Base.py')],
      ['binary_encode(), coin_outputid_new(), blockstake_outputid_new()'], VALUES, 'property-based testing against a reference encoder'),
    P('C10', 'Signatures commit to the whole agreement',
      'The hash that a signer signs is the specified one, and changes when anything agreed upon changes: any input, output, amount, recipient, lock, fee, datum, name, address, period, key or the position of the signer. '
      'It does not change when signatures are added, so signers may sign in any order.',
      ['inputs'], 'every transaction of every version, every single change of it, every co-signer or input index',
      'tests compare a few fixed hashes; a field left out of the hash goes unnoticed by them and lets anyone change it after signing',
      [X + 'Base.py', X + 'Standard.py', X + 'Minting.py', X + 'ThreeBot.py', X + 'ERC20.py'],
      [('signature_hash_get', X + '*.py: _signature_hash_input_get')],
      ['signature_hash_get(...)'], VALUES, 'property-based testing: reference hash and single-change metamorphic relation'),
    P('C11', 'Collecting signatures is sound in any order',
      'At any moment a transaction asks for exactly the signatures that are still missing where the spent output is known, each for its owner and over the specified hash; a signature by another key, or a second answer to one request, is refused. '
      'It counts as fulfilled exactly when every input, mint, bot and registration signature that is needed is there. '
      'Handing a half-signed transaction over as JSON loses and adds nothing.',
      ['histories', 'schedules'], 'every transaction of every version with up to 3 coin and 2 blockstake inputs of any condition, signed by 6 parties in any order with hand-overs in between',
      'tests sign in one fixed order, mostly with one signer',
      [X + 'Base.py', T + 'FulfillmentTypes.py', T + 'IO.py', X + 'Minting.py', X + 'ThreeBot.py', X + 'ERC20.py'],
      [('SignatureRequest', T + 'FulfillmentTypes.py'), ('signature_requests_new / is_fulfilled', X + 'Base.py'), ('_extra_signature_requests_new', X + '*.py')],
      ['signature_requests_new, signature_fulfill, is_fulfilled, json'], VALUES, 'stateful property-based testing against a model of the missing signatures'),
    P('C12', 'Locks open when they say',
      'A lock, given as a block height, a timestamp, a date and time, or a duration from a given moment, is the specified number, and an output locked by it is locked before that height or moment and free from it on. '
      'A duration prints to a text that reads back to the same duration, and a text which is neither date nor duration is refused.',
      ['inputs'], 'every height and timestamp around the height/timestamp boundary, every date and duration in the documented formats',
      'tests lock a few outputs and parse a few texts',
      [T + 'ConditionTypes.py', 'tfchain/internal/jsutils.py'],
      [('OutputLock', T + 'ConditionTypes.py'), ('duration / date parsing', 'tfchain/internal/jsutils.py')],
      ['OutputLock(...).value, locked_check, str; locked and unlocked balances'], VALUES, 'property-based testing against reference date arithmetic'),
    P('C13', 'Balances are what the chain says',
      'For every history of transactions, the available, locked and unconfirmed outputs and totals reported for an address, a multi-signature wallet or a whole wallet are exactly the unspent ones, whatever the order in which the explorer lists the transactions. '
      'Combining balances, of disjoint or of the same wallets, counts every output once and never brings a spent output back.',
      ['histories', 'schedules'], 'every generated ledger with up to 20 transactions over several addresses and multi-signature wallets, time and height locks, unconfirmed and re-ordered listings',
      'tests replay a few recorded explorer answers',
      [W, C],
      [('WalletBalance / WalletsBalance / MultiSigWalletBalance', W), ('ExplorerUnlockhashResult.balance', C), ('TFChainWallet.balance', W)],
      ['wallet.balance, unlockhash_get(...).balance(), balance_add, output_add'], NETWORK, 'property-based testing against a ledger model'),
    P('C14', 'Explorer answers are checked, not believed',
      'Blocks, transactions, outputs, addresses, mint conditions and bot records returned by an explorer are reported with exactly their content, and a transaction is linked with the outputs it spends and the identifiers of those it creates. '
      'An answer of another kind, about another block, transaction or output, or with missing or mismatching parts is refused as an invalid response; absent objects are reported as absent. '
      'An answer is about the moment of the question, whatever the same client was asked before, and what was reported earlier stays as it was.',
      ['inputs', 'fault_sequences'], 'every well-formed answer for generated blocks and transactions, every single omission or substitution of a checked part of it, and every sequence of questions to one client between which the answers change',
      'tests feed a few recorded, correct answers',
      [C, 'tfchain/errors.py'],
      [('block_get, transaction_get, unlockhash_get, coin_output_get, condition_get, record_get', C)],
      ['results and exceptions of the client methods'], NETWORK, 'property-based testing with injected corruption of explorer answers'),
    P('C15', 'Coin selection never overspends and finds funds that exist',
      'Funding an amount selects distinct, available outputs of the allowed sources only, at most 99 of them, whose sum minus the amount is the reported remainder. '
      'It succeeds whenever some such selection reaches the amount, and reports insufficient funds otherwise.',
      ['inputs'], 'every set of up to 130 confirmed and unconfirmed, locked and free outputs over personal and multi-signature addresses, every amount around the reachable sums and every choice of sources',
      'tests fund a few amounts from a few outputs; the limit of 99 inputs is never reached',
      [W], [('WalletsBalance.fund', W)], ['fund(...) on a balance'], NETWORK, 'property-based testing against an exact selection oracle'),
    P('C16', 'Sending coins: valid, balanced, signed, and to whom it was said',
      'Every transaction a wallet submits is one a node accepts: it spends existing unspent and unlocked outputs, each once, with valid signatures of their owners, and inputs equal outputs plus exactly the minimum fee. '
      'It pays exactly the stated amounts to the stated recipients under the stated lock with the stated data, returns the rest to the stated or default refund address, and uses the stated sources only. '
      'Bad requests and insufficient funds are refused without submitting anything; a send that fails, unless its submission itself got no answer, has submitted nothing.',
      ['histories', 'inputs'], 'every sequence of up to 7 sends, through single sends and the multi-output builder, from personal and multi-signature sources, with blocks and transactions of others in between',
      'tests send a few fixed amounts against recorded answers, and check signatures against recorded ones',
      [W, C, X + 'Standard.py'],
      [('coins_send', W), ('CoinTransactionBuilder', W), ('transaction_put', C)],
      ['transactions received by the explorer; TransactionSendResult; balances'], NETWORK, 'stateful property-based testing against an independent ledger validator'),
    P('C17', 'Multi-signature wallets spend only with enough co-owners',
      'A send from a multi-signature wallet is submitted only when the required number of its owners signed, and then it is valid; before that, any co-owner handed the transaction as text adds exactly their own signatures. '
      'The order in which the co-owners sign does not matter, and a wallet that owns no missing signature adds nothing and says so. What was submitted is reported, whatever fails afterwards.',
      ['schedules', 'histories'], 'every m-of-n wallet with up to 4 owners spread over up to 3 wallets, every signing order, hand-over in memory or as text',
      'tests sign one two-step transaction',
      [W], [('transaction_sign', W), ('coins_send from a multi-signature source', W)],
      ['TransactionSignResult; transactions received by the explorer'], NETWORK, 'stateful property-based testing against an independent ledger validator'),
    P('C18', 'Atomic swaps pay one party, under the agreed terms',
      'A swap contract holds exactly the agreed amount, parties, secret hash and refund time; only the receiver with the secret can redeem it, and only the sender from the refund time on can refund it, and both produce a valid spending signed by that party alone. '
      'Verification accepts a contract exactly when every stated expectation holds, and spent, absent and foreign contracts are reported as such. '
      'Secrets are unpredictable and match their hash; a swap that fails, unless its submission itself got no answer, has submitted nothing, so that no secret is lost.',
      ['histories', 'inputs'], 'every sequence of initiate, participate, verify, redeem and refund by two wallets (or one playing both parts) around the refund time',
      'tests walk one recorded swap',
      [W, T + 'AtomicSwap.py', T + 'ConditionTypes.py'],
      [('TFChainAtomicSwap', W), ('AtomicSwapContract', T + 'AtomicSwap.py')],
      ['results and exceptions of the swap operations; transactions received by the explorer'], NETWORK, 'stateful property-based testing against a contract model'),
    P('C19', 'Bot records: exact fees, valid limits, right signatures',
      'Registering, updating and transferring names of a 3Bot submits exactly the requested change, pays exactly the specified fee for it, is signed by the keys of the bots concerned, and otherwise is a valid spending. '
      'Requests outside the limits on names, addresses and months, for inactive bots, or with nothing to change, are refused without submitting anything; what was submitted is never reported as failed.',
      ['inputs', 'histories'], 'every combination of months, names and addresses to add and remove, within and around the limits; bots owned by the same or different wallets, active and expired',
      'tests register and update one bot',
      [W, X + 'ThreeBot.py', T + 'ThreeBot.py'],
      [('TFChainThreeBot', W), ('required_bot_fees and limits', X + 'ThreeBot.py')],
      ['transactions received by the explorer; required_bot_fees; exceptions'], NETWORK, 'property-based testing against a fee model and ledger validator'),
    P('C20', 'The ERC20 bridge: right address, right amount, right fee',
      'Sending to an ERC20 address converts exactly the stated amount to exactly that address; registering a withdrawal address uses a key of the wallet and pays exactly the specified fee, and its ERC20 address is the specified one for that key. '
      'Look-ups report what the network holds and tell unregistered addresses apart; locks, data and other people\'s addresses are refused.',
      ['inputs', 'histories'], 'every amount, address spelling, source and refund; every wallet address known, registered or not',
      'tests convert one amount and register one address',
      [W, X + 'ERC20.py', T + 'ERC20.py', C],
      [('TFChainERC20', W), ('TransactionV208 / V210', X + 'ERC20.py'), ('ERC20Address.from_unlockhash', T + 'ERC20.py')],
      ['transactions received by the explorer; address_get, addresses_get'], NETWORK, 'property-based testing against a ledger validator'),
    P('C21', 'Only the minters mint',
      'A mint definition or coin creation holds exactly the stated new definition or outputs, asks the current minters for their signatures, and is submitted only when the current mint condition is met, with valid signatures. '
      'Co-minters handed the transaction add their signatures in any order; each new transaction has its own nonce. What was submitted is never reported as failed.',
      ['histories', 'schedules'], 'every current and new mint condition of up to 4 owners, every signing order',
      'tests mint once with one signer and recorded answers',
      [W, X + 'Minting.py', C],
      [('TFChainMinter', W), ('TransactionV128 / V129', X + 'Minting.py')],
      ['transactions received by the explorer; TransactionSendResult'], NETWORK, 'stateful property-based testing against an independent validator'),
    P('C22', 'Draining moves everything that can move, once',
      'Draining a balance produces transactions which together spend every available output once (and the unconfirmed available ones when asked), at most 99 per transaction, and pay everything except one fee per transaction to the stated recipient with the stated lock and data. '
      'Outputs whose sum does not exceed the fee are left alone, and no produced transaction has an output without value.',
      ['inputs'], 'every set of up to 230 outputs, locked or not, confirmed or not',
      'tests drain a handful of outputs',
      [W], [('WalletBalance.drain', W)], ['transactions returned by drain'], NETWORK, 'property-based testing against a partition oracle'),
    P('C23', 'Explorer failover: any healthy explorer suffices, no false answers',
      'A request is answered with the complete body of the first explorer, of the listed ones in any order, that answers it with status 200, whatever combination of the others refuses connections, drops or cuts them short, hangs, speaks no HTTP or answers with an error status: no explorer is asked after the answer, and none waited for without limit. '
      'If an explorer says that an object does not exist, that is reported as such; if none answers well, the error status of one is reported as a server error, and if none can be reached at all, that is reported. A request is sent with exactly its method, endpoint and content; earlier requests, whether answered or not, have no influence on it, and no explorer is left out for good. A wallet or client that reaches its chain through a single healthy explorer sees and does the same as always, and learns from it which network it is on. A client that is told its network, and no explorers, uses explorers of that network.',
      ['fault_sequences'], 'every sequence of per-explorer faults (refused connection, HTTP status, truncated or non-JSON body) over up to 4 explorers',
      'tests replace the HTTP layer by a stub',
      ['tfchain/TFChainExplorerClient.py', 'tfchain/internal/HttpClient.py', 'tfchain/errors.py'],
      [('TFChainExplorerClient.get / post', 'tfchain/TFChainExplorerClient.py'), ('HttpClient', 'tfchain/internal/HttpClient.py')],
      ['results and exceptions of get and post; requests received by the servers'], 'Real HTTP over the loopback interface against scripted servers.', 'property-based testing with injected fault sequences'),
    P('C24', 'Bot names and network addresses are validated and encoded as specified',
      'A bot name or network address is accepted exactly when it follows the specified format, keeps its meaning (an IPv4 address written as IPv6 is the IPv4 one), prints, serializes and encodes as specified, and reads back to the same. '
      'Everything else is refused.',
      ['inputs'], 'every text of the relevant alphabet around the format limits, every IP address in every usual spelling',
      'tests try a table of names',
      [T + 'ThreeBot.py'], [('BotName, NetworkAddress', T + 'ThreeBot.py')], ['constructors, str, json, binary encodings, =='],
      VALUES, 'property-based testing against an independent format definition'),
    P('C25', 'A restored wallet finds its used addresses again',
      'A wallet restored from its seed finds, without being told how many, every used address that is at most the scan distance beyond the previous used one, and offers the unused addresses it skipped before any new one. '
      'Found addresses are listed in their order of derivation, those offered later after them; none is lost or repeated, and an explorer failure during the search loses nothing.',
      ['histories', 'fault_sequences'], 'every pattern of used and unused keys of up to 16 keys, every scan distance, activity appearing later, failing look-ups',
      'tests scan one pattern',
      [W], [('key scan', W + ': TFChainWallet._key_scan')], ['wallet.addresses, key_count, address_new after restoring'], NETWORK,
      'stateful property-based testing against a scan model'),
    P('C26', 'Binary values and hashes are values',
      'Binary data, hashes, signatures and block stakes made from any accepted form (bytes, hex or base64 text, JSON, another such value) hold exactly those bytes, serialize back to the same and compare and hash by value. '
      'A value of the wrong length, alphabet or type is refused, a hash without value reads as 32 zero bytes, and changing what a value was made from never changes the value.',
      ['inputs'], 'every byte string around the fixed sizes, every accepted spelling and encoding',
      'tests make a few values',
      [T + 'PrimitiveTypes.py', T + 'FulfillmentTypes.py'],
      [('BinaryData, Hash, Blockstake', T + 'PrimitiveTypes.py'), ('ED25519Signature', T + 'FulfillmentTypes.py')],
      ['constructors, value, str, json, ==, hash, binary encodings'], VALUES, 'property-based testing: round trips and aliasing'),
    P('C27', 'What is shown on screen, and what errors carry, is what there is',
      'A printed balance shows exactly the available, locked, unconfirmed and being-spent amounts of the wallet and of each active multi-signature wallet it belongs to, with the right owners, height and time, and claims no height or time it does not know. '
      'A printed swap contract shows its value, parties, secret hash and when it can be refunded; contracts are equal exactly when they say the same. '
      'Printed blocks, transactions and search results show their own identifiers and counts. An error carries and shows the very bot, contract, address, amount or transaction it is about.',
      ['histories', 'inputs'], 'every history of a chain (see C13), every contract and moment, every refused request of a kind that names what was wrong',
      'tests do not look at printed text or at what errors carry',
      [W, C, T + 'AtomicSwap.py', 'tfchain/errors.py'],
      [('printed balances', W + ': WalletBalance._human_readable_balance, __repr__'), ('AtomicSwapContract', T + 'AtomicSwap.py'), ('errors', 'tfchain/errors.py')],
      ['str and repr of balances, contracts, results, transactions; attributes of raised errors'], NETWORK, 'property-based testing of printed text against a model ledger'),
    P('C28', 'A transaction under construction holds exactly what it was given',
      'Whatever a transaction of any version is given - through its setters, its adders, lists copied over, None to take something away, a signature - it holds exactly that, next to everything it held before, and nothing else: its properties, fees, JSON, signature hash and output identifiers always follow from the sequence of changes made. '
      'A value which cannot be part of it (a wrong type, a wrong size, a negative or too precise amount, a month count, identifier, name or address out of bounds, one element too many, a second refund, a signature of a key it does not name) is refused, and a refusal leaves it as it was. '
      'Changing afterwards a thing which was given (an amount, a buffer, a list, a key) changes no transaction, and no two transactions share what they hold.',
      ['histories', 'inputs'], 'every sequence of changes to a transaction of every version, every form in which a value can be given, every value which is out of bounds',
      'tests build a few transactions, each in one way and once',
      [T + 'transactions/Base.py', T + 'transactions/Standard.py', T + 'transactions/Minting.py', T + 'transactions/ThreeBot.py', T + 'transactions/ERC20.py', T + 'IO.py'],
      [('setters and adders of the transaction classes', T + 'transactions/'), ('CoinInput, CoinOutput', T + 'IO.py')],
      ['the properties of a transaction', 'json(), signature_hash_get(), coin_outputid_new()', 'required_bot_fees'],
      'Conditions and fulfillments are shared by design, and are not changed after they are given. The content of a list which was refused half way is not judged.',
      'model-based property-based testing over sequences of changes'),
    P('C29', 'Operations stay right while the chain moves on',
      'Blocks, payments and spendings which arrive between the requests of one operation, or are not yet known to some of the explorers that are asked, do it no harm. A balance then reports every output in a state in which it was at some moment of the look-up, none twice and none left out that was there all the time, '
      'with the locks as of the very block it names. What could be paid, redeemed, refunded, registered, minted or co-signed at every moment of the operation is submitted and valid (unless the same coins are spent elsewhere meanwhile), and pays what was stated; what never could be is refused, without submitting anything. '
      'A swap contract which meets the stated expectations at every moment is verified, one that meets them at none is refused, and a refund time stated as a duration counts from a block of that time.',
      ['schedules', 'histories'], 'every sequence of blocks, payments and spendings before any request of a look-up, payment, swap, bot, bridge, mint or signing operation; every assignment of its requests to an explorer which knows them and one that does not',
      'the tests have a chain which stands still, seen by one explorer',
      [W, C],
      [('TFChainWallet.balance, coins_send, transaction_sign, TFChainAtomicSwap, TFChainThreeBot, TFChainERC20, TFChainMinter', W), ('blockchain_info_get, unlockhash_get, coin_output_get', C)],
      ['results and exceptions of the operations', 'transactions submitted to the model network'], NETWORK + ' Blocks which are taken back are not modelled.',
      'property-based testing over generated interleavings of chain events with the requests of an operation'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                       'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                anchors['state'] = p['state']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['quantifier']},
                                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    checks, missing = [], []
    for p in PROPS:
        if p['id'] in registry.CHECKS:
            checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
                           'technique': p['technique'] + ' (Hypothesis, shrinking to a replay file)', 'level': 'exploration',
                           'level_note': 'Generated-input search, no proof: nothing beyond the generated cases is claimed. ' + p['note']})
        else:
            missing.append({'property': p['id'], 'reason': 'the check for this property is still being built'})
    manifest = {'version': 1, 'setup_cmd': './check.sh selfcheck', 'checks': checks, 'not_applicable': missing,
                'notes': 'See DESIGN.md. Checks import the package from /repo\'s working tree; no hooks are needed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']


if __name__ == '__main__':
    main()
