From db585f917c3d2dd9eb0365aeb814f99be3aa93f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 01/82] fix: raise the Currency errors instead of a NameError
 for too precise or negative values

---
 tfchain/errors.py               | 2 +-
 tfchain/types/PrimitiveTypes.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/errors.py b/tfchain/errors.py
index 68ab770..dc105e3 100644
--- a/tfchain/errors.py
+++ b/tfchain/errors.py
@@ -35,7 +35,7 @@ class CurrencyPrecisionOverflow(Exception):
         """
         The precision of the value that caused the overflow.
         """
-        _, _, exp = self.value
+        _, _, exp = self.value.as_tuple()
         return abs(exp)
 
     @property
diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index d1e8c5b..9187291 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -220,9 +220,9 @@ class Currency(BaseDataTypeClass):
             d = Decimal(value)
             sign, _, exp = d.as_tuple()
             if exp < -9:
-                raise errors.CurrencyPrecisionOverflow(d)
+                raise tfchain.errors.CurrencyPrecisionOverflow(d)
             if sign != 0:
-                raise errors.CurrencyNegativeValue(d)
+                raise tfchain.errors.CurrencyNegativeValue(d)
             self._value = d
             return
         raise TypeError(
-- 
2.43.0


From 55aa1744df9c582e7cb254dbe0b2110f1a0660b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 02/82] fix: reflected Currency subtraction swapped its
 operands

---
 tfchain/types/PrimitiveTypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 9187291..d5f025b 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -257,7 +257,10 @@ class Currency(BaseDataTypeClass):
         other = Currency._op_other_as_currency(other)
         value = self.value - other.value
         return Currency(value=value)
-    __rsub__ = __sub__
+
+    def __rsub__(self, other):
+        other = Currency._op_other_as_currency(other)
+        return Currency(value=other.value - self.value)
 
     def __isub__(self, other):
         other = Currency._op_other_as_currency(other)
-- 
2.43.0


From ae3b622fb7394c8fea7a7424485874b27e7fc3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 03/82] fix: do not count trailing zeros as Currency precision

---
 tfchain/types/PrimitiveTypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index d5f025b..3937c01 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -218,8 +218,9 @@ class Currency(BaseDataTypeClass):
                 if len(value) >= 4 and value[-3:] == 'TFT':
                     value = value[:-3].rstrip()
             d = Decimal(value)
-            sign, _, exp = d.as_tuple()
-            if exp < -9:
+            sign, digits, exp = d.as_tuple()
+            # trailing zeros do not make a value more precise
+            if exp < -9 and any(digits[exp+9:]):
                 raise tfchain.errors.CurrencyPrecisionOverflow(d)
             if sign != 0:
                 raise tfchain.errors.CurrencyNegativeValue(d)
-- 
2.43.0


From b99edc83b1cc3f9cc7cf178f65df87ba95f23216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 04/82] fix: encode the slice length of strings in bytes, and
 iterate slice values only once

---
 tfchain/encoders/rivine.py | 11 ++++-------
 tfchain/encoders/sia.py    | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index e7835f6..fedeb67 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -170,16 +170,13 @@ class RivineBinaryEncoder:
         @param value: the iterateble object to be rivbin-encoded as a slice
         """
         if isinstance(value, str):
-            self._add_slice_length(len(value))
-            self._data += value.encode('utf-8')
-        elif isinstance(value, (bytes, bytearray)):
+            value = value.encode('utf-8')
+        if isinstance(value, (bytes, bytearray)):
             self._add_slice_length(len(value))
             self._data += value
         else:
-            length = 0
-            for _ in value:
-                length += 1
-            self._add_slice_length(length)
+            value = list(value)
+            self._add_slice_length(len(value))
             self.add_array(value)
 
     def _add_slice_length(self, length):
diff --git a/tfchain/encoders/sia.py b/tfchain/encoders/sia.py
index 5236170..57a9822 100644
--- a/tfchain/encoders/sia.py
+++ b/tfchain/encoders/sia.py
@@ -85,16 +85,13 @@ class SiaBinaryEncoder:
         @param value: the iterateble object to be siabin-encoded as a slice
         """
         if isinstance(value, str):
-            self.add_int(len(value))
-            self._data += value.encode('utf-8')
-        elif isinstance(value, (bytes, bytearray)):
+            value = value.encode('utf-8')
+        if isinstance(value, (bytes, bytearray)):
             self.add_int(len(value))
             self._data += value
         else:
-            length = 0
-            for _ in value:
-                length += 1
-            self.add_int(length)
+            value = list(value)
+            self.add_int(len(value))
             self.add_array(value)
 
     def add_byte(self, value):
-- 
2.43.0


From 314e657d709c170d9ca873d6597aa995f26d4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 05/82] fix: encode and compare a nil Hash as 32 zero bytes

---
 tfchain/types/PrimitiveTypes.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 3937c01..7f71e5b 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -167,11 +167,16 @@ class Hash(BinaryData):
             obj = None
         return cls(value=obj)
 
-    def __str__(self):
-        s = super().__str__()
-        if not s:
-            return '0'*(Hash.SIZE*2)
-        return s
+    @property
+    def value(self):
+        return self._value
+
+    @value.setter
+    def value(self, value):
+        BinaryData.value.fset(self, value)
+        if len(self._value) == 0:
+            # a nil hash is a hash of 32 zero bytes
+            self._value = bytearray(Hash.SIZE)
 
 
 from math import floor
-- 
2.43.0


From 940ab862524b8dff7743057401294c2e5669ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 06/82] fix: verify the checksum of nil addresses and decode
 the hex-encoded address type

---
 tfchain/types/ConditionTypes.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 2943215..913811e 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -314,7 +314,7 @@ class UnlockHash(BaseDataTypeClass):
         if len(obj) != UnlockHash._TOTAL_SIZE_HEX:
             raise ValueError("UnlockHash is expexcted to be of length {} when JSON-encoded, not of length {}".format(UnlockHash._TOTAL_SIZE_HEX, len(obj)))
 
-        t = UnlockHashType(int(obj[:UnlockHash._TYPE_SIZE_HEX]))
+        t = UnlockHashType(bytes.fromhex(obj[:UnlockHash._TYPE_SIZE_HEX])[0])
         h = Hash(value=obj[UnlockHash._TYPE_SIZE_HEX:UnlockHash._TYPE_SIZE_HEX+UnlockHash._HASH_SIZE_HEX])
         uh = cls(type=t, hash=h)
         
@@ -322,11 +322,10 @@ class UnlockHash(BaseDataTypeClass):
             expectedNH = b'\x00'*UnlockHash._HASH_SIZE
             if h.value != expectedNH:
                 raise ValueError("unexpected nil hash {}".format(h.value.hex()))
-        else:
-            expected_checksum = uh._checksum()[:UnlockHash._CHECKSUM_SIZE].hex()
-            checksum = obj[-UnlockHash._CHECKSUM_SIZE_HEX:]
-            if expected_checksum != checksum:
-                raise ValueError("unexpected checksum {}, expected {}".format(checksum, expected_checksum))
+        expected_checksum = uh._checksum()[:UnlockHash._CHECKSUM_SIZE].hex()
+        checksum = obj[-UnlockHash._CHECKSUM_SIZE_HEX:]
+        if expected_checksum != checksum:
+            raise ValueError("unexpected checksum {}, expected {}".format(checksum, expected_checksum))
 
         return uh
     
-- 
2.43.0


From b34ddea4b20954bf55ce616091703900da66d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 07/82] fix: allow a NetworkAddress and BotName to be created
 from another one

---
 tfchain/types/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 82f69e8..bb7ec3e 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -172,7 +172,7 @@ class NetworkAddress(BaseDataTypeClass):
                 raise ValueError(
                     "invalid network address '{}' (type: {})".format(value, type(value)))
         elif isinstance(value, NetworkAddress):
-            self._address = value._address.copy()
+            self._address = bytearray(value._address)
             self._type = value._type
         else:
             raise TypeError(
@@ -255,7 +255,7 @@ class BotName(BaseDataTypeClass):
                 raise ValueError("bot name '{}' is not valid".format(value))
             self._value = value
         elif isinstance(value, BotName):
-            self._value = value._value.copy()
+            self._value = value._value
         else:
             raise TypeError(
                 "bot name cannot be assigned a value of type {}".format(type(value)))
-- 
2.43.0


From cdc6ef20e5ba20d3f386d601c6f01ff92e58ae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 08/82] fix: reject bot names and hostnames with a trailing
 newline

---
 tfchain/types/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index bb7ec3e..49f05d0 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -145,7 +145,7 @@ class NetworkAddress(BaseDataTypeClass):
         if value is None:
             self._type = NetworkAddress.Type.HOSTNAME
             self._address = bytearray()
-        elif isinstance(value, str) and NetworkAddress.HOSTNAME_REGEXP.match(value):
+        elif isinstance(value, str) and NetworkAddress.HOSTNAME_REGEXP.fullmatch(value):
             addr = bytearray()
             if len(value) > NetworkAddress.HOSTNAME_LENGTH_MAX:
                 raise ValueError("the length of a hostname can maximum be {} bytes long".format(
@@ -251,7 +251,7 @@ class BotName(BaseDataTypeClass):
             if len(value) > BotName.LENGTH_MAX:
                 raise ValueError("the length of a botname can maximum be {} characters long".format(
                     BotName.LENGTH_MAX))
-            if BotName.REGEXP.match(value) is None:
+            if BotName.REGEXP.fullmatch(value) is None:
                 raise ValueError("bot name '{}' is not valid".format(value))
             self._value = value
         elif isinstance(value, BotName):
-- 
2.43.0


From e50e435f6a0913bfeef72c00bdbf866cf25c35e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 09/82] fix: make the JSON object of a transaction serializable
 (version as an integer)

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 01230d6..df339b7 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -195,7 +195,7 @@ class TransactionBaseClass(ABC):
         pass
 
     def json(self):
-        obj = {'version': self.version}
+        obj = {'version': int(self.version)}
         data = self._json_data_object()
         if data:
             obj['data'] = data
-- 
2.43.0


From d4d0a037ee241430261ddf092e2a6820a35e01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 10/82] fix: compare transactions without an identifier by
 their content

---
 tfchain/types/transactions/Base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index df339b7..3ef4250 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -1,5 +1,5 @@
 import json
-from tfchain.internal.jsutils import blake2_string
+from tfchain.internal.jsutils import blake2_string, json_dumps
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get, BaseRivineObjectEncoder, BaseSiaObjectEncoder
 from functools import reduce
 from abc import ABC, abstractmethod, abstractclassmethod
@@ -91,8 +91,9 @@ class TransactionBaseClass(ABC):
 
     @id.setter
     def id(self, id):
-        if isinstance(id, Hash):
-            self._id = Hash(value=id.value)
+        if id is None:
+            self._id = None
+            return
         self._id = Hash(value=id)
 
     def __hash__(self):
-- 
2.43.0


From bb9715e88d650920302f2f19b0eac71ae5845a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 11/82] fix: check the index of a blockstake output against the
 blockstake outputs

---
 tfchain/types/transactions/Base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 3ef4250..e4a94c7 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -227,10 +227,10 @@ class TransactionBaseClass(ABC):
 
     def blockstake_outputid_new(self, index):
         """
-        Compute the ID of a Coin Output within this transaction.
+        Compute the ID of a Blockstake Output within this transaction.
         """
-        if index < 0 or index >= len(self.coin_outputs):
-            raise ValueError("coin output index is out of range")
+        if index < 0 or index >= len(self.blockstake_outputs):
+            raise ValueError("blockstake output index is out of range")
         return self._outputid_new(specifier=self._blockstake_outputid_specifier, index=index)
 
     def _outputid_new(self, specifier, index):
-- 
2.43.0


From cf128cea59d76a49df35b8333d688ada540a05c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 12/82] fix: a transaction is only fulfilled if its blockstake
 inputs are fulfilled as well

---
 tfchain/types/IO.py                | 4 ++--
 tfchain/types/transactions/Base.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/IO.py b/tfchain/types/IO.py
index f6eb276..564685d 100644
--- a/tfchain/types/IO.py
+++ b/tfchain/types/IO.py
@@ -250,12 +250,12 @@ class BlockstakeInput(BaseDataTypeClass):
 
     @property
     def parent_output(self):
-        return self._parent_output
+        return self._parent_output or BlockstakeOutput()
 
     @parent_output.setter
     def parent_output(self, value):
         if value is None:
-            self._parent_output = BlockstakeOutput()
+            self._parent_output = None
             return
         if not isinstance(value, BlockstakeOutput):
             raise TypeError(
diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index e4a94c7..d56031e 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -297,8 +297,8 @@ class TransactionBaseClass(ABC):
         meaning it has all the required signatures in all the required places.
         """
         return reduce(
-            (lambda r, ci: r and ci.is_fulfilled()),
-            self.coin_inputs, self._extra_is_fulfilled())
+            (lambda r, i: r and i.is_fulfilled()),
+            list(self.coin_inputs) + list(self.blockstake_inputs), self._extra_is_fulfilled())
 
     def _extra_is_fulfilled(self):
         """
-- 
2.43.0


From 5523ea786b64500afdf488a417ae248f323b1f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 13/82] fix: an empty signature in a JSON transaction does not
 count as a signature

---
 tfchain/types/FulfillmentTypes.py      | 11 +++++++++--
 tfchain/types/transactions/ERC20.py    |  4 ++--
 tfchain/types/transactions/ThreeBot.py | 10 +++++-----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 427be76..6cf9b57 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -90,6 +90,13 @@ class ED25519Signature(BinaryData):
         else:
             encoder.add_slice(self._value)
 
+def _signature_from_json(obj, as_array=False):
+    """
+    JSON-decode an optional signature, an empty signature is no signature.
+    """
+    signature = ED25519Signature.from_json(obj, as_array=as_array)
+    return signature if len(signature) > 0 else None
+
 _FULFULLMENT_TYPE_SINGLE_SIG = 1
 _FULFILLMENT_TYPE_ATOMIC_SWAP = 2
 _FULFILLMENT_TYPE_MULTI_SIG = 3
@@ -284,7 +291,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
     
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-        self._signature = ED25519Signature.from_json(data['signature'])
+        self._signature = _signature_from_json(data['signature'])
 
     def json_data_object(self):
         return {
@@ -527,7 +534,7 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
 
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-        self._signature = ED25519Signature.from_json(data['signature'])
+        self._signature = _signature_from_json(data['signature'])
         self._secret = None
         if 'secret' in data:
             self._secret = AtomicSwapSecret.from_json(data['secret'])
diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 0a2195d..a1aaa15 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -1,6 +1,6 @@
 from tfchain.types.transactions.Base import TransactionBaseClass, TransactionVersion, InputSignatureHashFactory
 
-from tfchain.types.FulfillmentTypes import ED25519Signature, SignatureCallbackBase, SignatureRequest
+from tfchain.types.FulfillmentTypes import ED25519Signature, SignatureCallbackBase, SignatureRequest, _signature_from_json
 from tfchain.types.ConditionTypes import UnlockHash, ConditionUnlockHash
 from tfchain.types.PrimitiveTypes import BinaryData, Currency
 from tfchain.types.ERC20 import ERC20Address, ERC20Hash
@@ -624,7 +624,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
             self._public_key = None
         # decode signature
         if 'signature' in data:
-            self._signature = ED25519Signature.from_json(data['signature'])
+            self._signature = _signature_from_json(data['signature'])
         else:
             self._signature = None
         # decode registration fee
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 2fe1265..de86938 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -1,6 +1,6 @@
 from tfchain.types.transactions.Base import TransactionBaseClass, TransactionVersion, InputSignatureHashFactory
 
-from tfchain.types.FulfillmentTypes import ED25519Signature, SignatureCallbackBase, SignatureRequest
+from tfchain.types.FulfillmentTypes import ED25519Signature, SignatureCallbackBase, SignatureRequest, _signature_from_json
 from tfchain.types.ConditionTypes import ConditionBaseClass, ConditionNil
 from tfchain.types.ThreeBot import NetworkAddress, BotName
 from tfchain.types.PrimitiveTypes import BinaryData, Currency
@@ -398,7 +398,7 @@ class TransactionV144(BotTransactionBaseClass):
         else:
             identification = data['identification']
             self._public_key = PublicKey.from_json(identification['publickey'])
-            self._signature = ED25519Signature.from_json(identification['signature'], as_array=True)
+            self._signature = _signature_from_json(identification['signature'], as_array=True)
 
     def _json_data_object(self):
         output = {
@@ -818,7 +818,7 @@ class TransactionV145(BotTransactionBaseClass):
             self._refund_coin_output = CoinOutput.from_json(data['refundcoinoutput'])
         else:
             self._refund_coin_output = None
-        self._signature = ED25519Signature.from_json(data.get('signature', None) or None)
+        self._signature = _signature_from_json(data.get('signature', None) or None)
 
     def _json_data_object(self):
         output = {
@@ -1187,7 +1187,7 @@ class TransactionV146(BotTransactionBaseClass):
         if 'sender' in data:
             bot_data = data['sender']
             self._sender_botid = int(bot_data.get('id', 0) or 0)
-            self._sender_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            self._sender_signature = _signature_from_json(bot_data.get('signature', None) or None)
         else:
             self._sender_botid = None
             self._sender_signature = None
@@ -1195,7 +1195,7 @@ class TransactionV146(BotTransactionBaseClass):
         if 'receiver' in data:
             bot_data = data['receiver']
             self._receiver_botid = int(bot_data.get('id', 0) or 0)
-            self._receiver_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            self._receiver_signature = _signature_from_json(bot_data.get('signature', None) or None)
         else:
             self._receiver_botid = None
             self._receiver_signature = None
-- 
2.43.0


From 05e5dd05329ad2a54da8fc7f3b766e2e81efc0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 14/82] fix: encode the signature of V145, V146 and V210
 transactions as a slice, also when signed locally

---
 tfchain/types/transactions/ERC20.py    |  4 ++--
 tfchain/types/transactions/ThreeBot.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index a1aaa15..c197c99 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -446,7 +446,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
 
     @signature.setter
@@ -454,7 +454,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def coin_inputs(self):
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index de86938..48a5117 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -676,14 +676,14 @@ class TransactionV145(BotTransactionBaseClass):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
     @signature.setter
     def signature(self, value):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def parent_public_key(self):
@@ -1042,26 +1042,26 @@ class TransactionV146(BotTransactionBaseClass):
     @property
     def sender_signature(self):
         if self._sender_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._sender_signature
     @sender_signature.setter
     def sender_signature(self, value):
         if value is None:
             self._sender_signature = None
             return
-        self._sender_signature = ED25519Signature(value=value, as_array=True)
+        self._sender_signature = ED25519Signature(value=value)
 
     @property
     def receiver_signature(self):
         if self._receiver_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._receiver_signature
     @receiver_signature.setter
     def receiver_signature(self, value):
         if value is None:
             self._receiver_signature = None
             return
-        self._receiver_signature = ED25519Signature(value=value, as_array=True)
+        self._receiver_signature = ED25519Signature(value=value)
 
     @property
     def sender_parent_public_key(self):
-- 
2.43.0


From 3b7ab1d62f496e0ea4812f4273781ef213b37742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 15/82] fix: unsigned or unfunded 3Bot and ERC20 registration
 transactions can be JSON-encoded

---
 tfchain/types/transactions/ERC20.py    | 2 +-
 tfchain/types/transactions/ThreeBot.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index c197c99..a93c6cb 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -417,7 +417,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         self._registration_fee = Currency(
             value=TransactionV210.HARDCODED_REGISTRATION_FEE)
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
 
         super().__init__()
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 48a5117..64d1dc1 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -406,8 +406,8 @@ class TransactionV144(BotTransactionBaseClass):
             'txfee': self.transaction_fee.json(),
             'coininputs': [ci.json() for ci in self.coin_inputs],
             'identification': {
-                'publickey': self._public_key.json(),
-                'signature': self._signature.json(),
+                'publickey': self.public_key.json(),
+                'signature': self.signature.json(),
             },
         }
         addresses = self.addresses
@@ -889,7 +889,7 @@ class TransactionV146(BotTransactionBaseClass):
         self._receiver_botid = None
         self._names = []
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
         self._sender_signature = None
         self._receiver_signature = None
-- 
2.43.0


From e94bf765aa180fa56b4ec212d592fd81413a6bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 16/82] fix: assigning the names of a name transfer transaction
 replaces them

---
 tfchain/types/transactions/ThreeBot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 64d1dc1..971b2b0 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -1006,7 +1006,7 @@ class TransactionV146(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names_to_add = []
+        self._names = []
         if not value:
             return
         for name in value:
-- 
2.43.0


From 3f193a4fc69f6589f714d47fa20d712870e0d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 17/82] fix: remember the assigned coin output ID of an ERC20
 coin creation transaction

---
 tfchain/types/transactions/ERC20.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index a93c6cb..512bac6 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -236,6 +236,7 @@ class TransactionV209(TransactionBaseClass):
         self._transaction_fee = None
         self._blockid = None
         self._transactionid = None
+        self._coin_output = CoinOutput()
 
         super().__init__()
 
@@ -322,8 +323,10 @@ class TransactionV209(TransactionBaseClass):
         """
         A singleton, containing the ERC20-converted TFT coins.
         """
-        condition = ConditionUnlockHash(unlockhash=self.address)
-        return [CoinOutput(value=self.value, condition=condition, id=None)]
+        # always return the same output, as the ID of a coin output is assigned to it once known
+        self._coin_output.value = self.value
+        self._coin_output.condition = ConditionUnlockHash(unlockhash=self.address)
+        return [self._coin_output]
 
     def _signature_hash_input_get(self, *extra_objects):
         e = encoder_sia_get()
-- 
2.43.0


From 31f9a7b99d8a9e55078aba14a8bfdafbf31800a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 18/82] fix: do not report texts as '+12..' and '1_2..' as
 valid ERC20 addresses

---
 tfchain/types/ERC20.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tfchain/types/ERC20.py b/tfchain/types/ERC20.py
index 5c8ff52..5347c26 100644
--- a/tfchain/types/ERC20.py
+++ b/tfchain/types/ERC20.py
@@ -28,8 +28,7 @@ class ERC20Address(BinaryData):
             if len(value) != ERC20Address.SIZE*2:
                 return False
             try:
-                int(value, 16)
-                return True
+                return len(bytes.fromhex(value)) == ERC20Address.SIZE
             except ValueError:
                 return False
         elif isinstance(value, (bytes, bytearray)):
-- 
2.43.0


From 915fe23551950981c3c01035f5f85f59ef707ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 19/82] fix: copied inputs of which the parent output is
 unknown do not get a free-for-all one

---
 tfchain/types/transactions/ERC20.py    | 4 ++--
 tfchain/types/transactions/Standard.py | 4 ++--
 tfchain/types/transactions/ThreeBot.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 512bac6..8c7aa19 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -66,7 +66,7 @@ class TransactionV208(TransactionBaseClass):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -474,7 +474,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index 456ce3d..11b538b 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -121,7 +121,7 @@ class TransactionV1(TransactionBaseClass):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def coin_outputs(self):
@@ -163,7 +163,7 @@ class TransactionV1(TransactionBaseClass):
             return
         for bsi in value:
             self.blockstake_input_add(
-                bsi.parentid, bsi.fulfillment, parent_output=bsi.parent_output)
+                bsi.parentid, bsi.fulfillment, parent_output=bsi._parent_output)
 
     @property
     def blockstake_outputs(self):
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 971b2b0..3a23c38 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -148,7 +148,7 @@ class TransactionV144(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -509,7 +509,7 @@ class TransactionV145(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -954,7 +954,7 @@ class TransactionV146(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
-- 
2.43.0


From 090787e033b9e4e4b921873b07054129e48ae1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 20/82] fix: a signed single signature fulfillment of a
 free-for-all output asks for no other signature

---
 tfchain/types/FulfillmentTypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 6cf9b57..d195938 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -311,9 +311,9 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         parent_condition = parent_condition.unwrap()
         if not isinstance(parent_condition, (ConditionNil, ConditionUnlockHash)):
             raise TypeError("parent condition of FulfillmentSingleSignature cannot be of type {}".format(type(parent_condition)))
-        unlockhash = parent_condition.unlockhash
-        if str(unlockhash) == str(self.public_key.unlockhash):
+        if self._signature is not None:
             return [] # nothing to do
+        unlockhash = parent_condition.unlockhash
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
         def input_hash_gen(public_key):
-- 
2.43.0


From 441d6920319e96a76be5e481f2e24bfe1947be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 21/82] fix: a signed atomic swap fulfillment does not ask the
 other party to replace the signature

---
 tfchain/types/FulfillmentTypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index d195938..0d7130a 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -559,18 +559,18 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
             raise TypeError("expected input hash generator func with signature `f(*extra_objects) -> Hash`, not {}".format(type(input_hash_func)))
         if not isinstance(parent_condition, ConditionAtomicSwap):
             raise TypeError("parent condition of FulfillmentAtomicSwap cannot be of type {}".format(type(parent_condition)))
+        if self._signature is not None:
+            return [] # nothing to do
         requests = []
-        signee = str(self.public_key.unlockhash)
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
         def input_hash_gen(public_key):
             if self._secret is not None:
                 return input_hash_func(public_key, self.secret)
             return input_hash_func(public_key)
-        # create a signature hash for all signees that haven't signed yet
+        # create a signature request for both parties, one of which has to sign
         for unlockhash in [parent_condition.sender, parent_condition.receiver]:
-            if str(unlockhash) != signee:
-                requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
+            requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
         return requests
 
     def is_fulfilled(self, parent_condition):
-- 
2.43.0


From 89a42ab2904dfe55c51b7b04032a35736f3368fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 22/82] fix: a lock given as a time without a date is one of
 the current day, as documented

---
 tfchain/internal/jsutils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 07c7ce9..23ce79a 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -576,7 +576,11 @@ class DateTime:
 
             if ":" in v:
                 # have time inside the representation
-                dd, tt = v.split(" ", 1)
+                if "/" in v:
+                    dd, tt = v.split(" ", 1)
+                else:
+                    # only a time, use the current day
+                    dd, tt = jstime.epoch2HRDate(jstime.epoch), v
                 tt, tfstr = time_process(tt)
             else:
                 tt, tfstr = time_process("")
-- 
2.43.0


From a2e8ed27d10788adc795c51d16ee9211c82148a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 23/82] fix: refuse an empty or negative output lock

---
 tfchain/types/ConditionTypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 913811e..eb4132b 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -129,6 +129,8 @@ class OutputLock:
             self._value = int(value)
         elif isinstance(value, str):
             value = value.lstrip()
+            if not value:
+                raise ValueError("output lock cannot be set using an empty string")
             if value[0] == "+":
                 # interpret string as a duration
                 offset = duration.fromString(value[1:])
@@ -142,6 +144,8 @@ class OutputLock:
             self._value = int(value.timestamp())
         else:
             raise TypeError("cannot set OutputLock using invalid type {}".format(type(value)))
+        if self._value < 0:
+            raise ValueError("output lock value cannot be negative")
 
     def __int__(self):
         return self._value
-- 
2.43.0


From 7de0cad8dff0529da8b6d7f060ccd0f2228fe492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 24/82] fix: refuse a time of more than three parts with the
 error for invalid times

---
 tfchain/internal/jsutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 23ce79a..ee27fa7 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -561,6 +561,8 @@ class DateTime:
                     fstr = "%I%p:%M:%S"
                 else:
                     fstr = "%H:%M:%S"
+            else:
+                raise ValueError("time needs to have 1 or 2 :, now:%s" % v)
             return (v, fstr)
         
         if v is None:
-- 
2.43.0


From 67d69470950163fa5de28252524ed779e85cc46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 25/82] fix: a network address copied from an IP network
 address can be read

---
 tfchain/types/ThreeBot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 49f05d0..484997f 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -172,7 +172,7 @@ class NetworkAddress(BaseDataTypeClass):
                 raise ValueError(
                     "invalid network address '{}' (type: {})".format(value, type(value)))
         elif isinstance(value, NetworkAddress):
-            self._address = bytearray(value._address)
+            self._address = bytes(value._address)
             self._type = value._type
         else:
             raise TypeError(
-- 
2.43.0


From 5d40f1d3f28c9a1fcb8f18737eb97d4a659ff2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 26/82] fix: refuse a network address with a scope, instead of
 dropping the scope

---
 tfchain/types/ThreeBot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 484997f..db8af55 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -156,6 +156,10 @@ class NetworkAddress(BaseDataTypeClass):
         elif isinstance(value, (str, int)):
             # or a network address is a valid (std) IPv4/IPv6 address
             na = ipaddress.ip_address(value)
+            if getattr(na, 'scope_id', None):
+                # a scope only has a meaning local to a machine, and cannot be encoded
+                raise ValueError(
+                    "network address '{}' cannot have a scope".format(value))
             if isinstance(na, ipaddress.IPv4Address):
                 self._type = NetworkAddress.Type.IPV4
                 self._address = na.packed
-- 
2.43.0


From f9e884ea85dcf6fd81caf480e01cc34138e68755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 27/82] fix: binary data no longer shares its bytes with what
 it is created from

---
 tfchain/types/PrimitiveTypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 7f71e5b..fa51726 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -84,8 +84,9 @@ class BinaryData(BaseDataTypeClass):
             raise ValueError(
                 "binary data was expected to be of fixed size {}, length {} is not allowed".format(
                     self._fixed_size, len(value)))
-        # all good, assign the bytearray value
-        self._value = value
+        # all good, assign a copy as the bytearray value, such that
+        # it does not change together with what it was created from
+        self._value = bytearray(value)
 
     def __len__(self):
         return len(self.value)
-- 
2.43.0


From c8f781077e0e45226bd5e8b8525bd8f9f1830d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 28/82] fix: refuse text that is not base64 as base64-encoded
 binary data

---
 tfchain/types/PrimitiveTypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index fa51726..b23db00 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -18,7 +18,7 @@ class BinaryData(BaseDataTypeClass):
             self._from_str = lambda s: bytearray.fromhex(s)
             self._to_str = lambda value: value.hex()
         elif strencoding.lower().strip() == 'base64':
-            self._from_str = lambda s: bytearray(base64.b64decode(s))
+            self._from_str = lambda s: bytearray(base64.b64decode(s, validate=True))
             self._to_str = lambda value: base64.b64encode(value).decode()
         elif strencoding.lower().strip() == 'hexprefix':
             self._from_str = lambda s: bytearray.fromhex(
-- 
2.43.0


From 2beaad31fefa97840bbd5ea3136128babbf7440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 29/82] fix: tell the creation and spend transaction of an
 output apart on the same height, or when unconfirmed

---
 tfchain/TFChainClient.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index daf9399..8526940 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -349,24 +349,24 @@ class TFChainClient:
             lresp = len(tresp)
             if lresp not in (1, 2):
                 raise tfchain.errors.ExplorerInvalidResponse("expected one or two transactions to be returned, not {}".format(lresp), endpoint, resp)
-            # parse the transaction(s)
-            creation_txn = tresp[0]
+            # parse the transaction(s), the creation transaction is the one that has the output,
+            # as both can be on the same height or unconfirmed
+            output = None
+            creation_txn = None
             spend_txn = None
-            if lresp == 2:
-                if tresp[1]['height'] > creation_txn['height']:
-                    spend_txn = tresp[1]
+            for etxn in tresp:
+                txn = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
+                if output is None:
+                    # collect the output
+                    for out in (txn.coin_outputs if hash_type == 'coinoutputid' else txn.blockstake_outputs):
+                        if str(out.id) == id:
+                            output = out
+                            creation_txn = txn
+                            break
+                    else:
+                        spend_txn = txn
                 else:
-                    spend_txn = creation_txn
-                    creation_txn = tresp[1]
-            creation_txn = self._transaction_from_explorer_transaction(creation_txn, endpoint=endpoint, resp=resp)
-            if spend_txn is not None:
-                spend_txn = self._transaction_from_explorer_transaction(spend_txn, endpoint=endpoint, resp=resp)
-            # collect the output
-            output = None
-            for out in (creation_txn.coin_outputs if hash_type == 'coinoutputid' else creation_txn.blockstake_outputs):
-                if str(out.id) == id:
-                    output = out
-                    break
+                    spend_txn = txn
             if output is None:
                 raise tfchain.errors.ExplorerInvalidResponse("expected output {} to be part of creation Tx, but it wasn't".format(id), endpoint, resp)
             # return the output and related transaction(s)
-- 
2.43.0


From cbe97095044cacb674104f9ae9933cd9438b45cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 30/82] fix: look up an address which has no transactions of
 its own

---
 tfchain/TFChainClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 8526940..52e6871 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -273,7 +273,7 @@ class TFChainClient:
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'unlockhash' not '{}'".format(resp['hashtype']), endpoint, resp)
             # parse the transactions
             transactions = []
-            for etxn in resp['transactions']:
+            for etxn in resp['transactions'] or []: # null if there are none, e.g. for an owner of a MultiSig wallet only
                 # parse the explorer transaction
                 transaction = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
                 # append the transaction to the list of transactions
-- 
2.43.0


From 1f0e50609ff5e8db0f686caa34eeccac72b0608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 31/82] fix: refuse a block of another height than the one
 asked for

---
 tfchain/TFChainClient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 52e6871..0e2cda9 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -168,6 +168,8 @@ class TFChainClient:
                 resp = self.explorer_get(endpoint=endpoint)
                 resp = json_loads(resp)
                 resp = resp['block']
+                if resp['height'] != int(value):
+                    raise tfchain.errors.ExplorerInvalidResponse("expected block height '{}' not '{}'".format(value, resp['height']), endpoint, resp)
             else:
                 blockid = self._normalize_id(value)
                 endpoint = "/explorer/hashes/"+blockid
-- 
2.43.0


From fd9fdfd8a04b56c9c03cab16963c7a9dfa8542fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 32/82] fix: report a transaction without height as an invalid
 explorer response

---
 tfchain/TFChainClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 0e2cda9..619dabf 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -414,7 +414,7 @@ class TFChainClient:
         transaction.unconfirmed = etxn.get('unconfirmed', False)
         # set the height of the transaction only if confirmed
         if not transaction.unconfirmed:
-            transaction.height = int(etxn.get('height'))
+            transaction.height = int(etxn['height'])
         # return the transaction
         return transaction
 
-- 
2.43.0


From 73b5f86176e712872591794460f557cf2ba24a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 33/82] fix: report chain info without a block as an invalid
 explorer response

---
 tfchain/TFChainClient.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 619dabf..50e1028 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -147,9 +147,14 @@ class TFChainClient:
         """
         Get the current blockchain info, using the last known block, as reported by an explorer.
         """
-        resp = self.explorer_get(endpoint="/explorer")
+        endpoint = "/explorer"
+        resp = self.explorer_get(endpoint=endpoint)
         resp = json_loads(resp)
-        blockid = Hash.from_json(obj=resp['blockid'])
+        try:
+            blockid = Hash.from_json(obj=resp['blockid'])
+        except KeyError as exc:
+            # return a KeyError as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
         last_block = self.block_get(blockid)
         return ExplorerBlockchainInfo(last_block=last_block)
 
-- 
2.43.0


From f38ddc2a87f25779ab07fd8a10e272430dca5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 34/82] fix: keep the outputs of a multi-signature wallet which
 also is a minter

---
 tfchain/TFChainClient.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 50e1028..ed9e240 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -569,8 +569,9 @@ class ExplorerUnlockhashResult():
                         balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
                     balance.output_add(co, confirmed=(not txn.unconfirmed), spent=False)
             if isinstance(txn, TransactionV128):
-                oc = txn.mint_condition
-                balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
+                oc = txn.mint_condition.unwrap()
+                if balance is None and isinstance(oc, ConditionMultiSignature) and str(oc.unlockhash) == address:
+                    balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
         if balance is None:
             return WalletBalance() # return empty balance
         return balance
-- 
2.43.0


From ca129acf1572ce986742b7f310950fe16128df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 35/82] fix: list the transactions of a wallet with unused
 addresses

---
 tfchain/TFChainWallet.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 8c6af85..4fdb551 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -239,8 +239,13 @@ class TFChainWallet:
         # for each address get all transactions
         transactions = set()
         for address in self.addresses:
-            result = self._unlockhash_get(address)
-            transactions.update(result.transactions)
+            try:
+                result = self._unlockhash_get(address)
+                transactions.update(result.transactions)
+            except tfchain.errors.ExplorerNoContent:
+                 # ignore this exception as it simply means
+                 # the address has no activity yet on the chain
+                pass
 
         # sort all transactions
         transactions = sorted(transactions, key=(lambda txn: sys.maxsize if txn.height < 0 else txn.height), reverse=True)
-- 
2.43.0


From 438c721d616593221442d7d81aff552a068cc025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 36/82] fix: add up two balances of one multi-signature wallet

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 4fdb551..b8765b4 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2188,7 +2188,7 @@ class MultiSigWalletBalance(WalletBalance):
                 return WalletsBalance().balance_add(self).balance_add(self)
             # can only merge 2 multi-signature wallet balances
             raise TypeError("other balance has to be of type multi-signature wallet balance")
-        if self.address != other.addres:
+        if self.address != other.address:
             raise ValueError("other balance is for a different MultiSignature Wallet, cannot be merged")
         # piggy-back on the super class for the actual merge logic
         return super().balance_add(other._base)
@@ -2280,7 +2280,7 @@ class WalletsBalance(WalletBalance):
         if address not in self._wallets:
             self._wallets[address] = balance
             return
-        self._wallets[address] = self._wallets[address].merge(balance)
+        self._wallets[address] = self._wallets[address].balance_add(balance)
 
     def __repr__(self):
         result = super().__repr__()
-- 
2.43.0


From dd981f8133c04240f37291b3cc46acb5e0252127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 37/82] fix: a balance added to that of a multi-signature
 wallet is no longer lost

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index b8765b4..aedeae6 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2185,7 +2185,7 @@ class MultiSigWalletBalance(WalletBalance):
             return self
         if not isinstance(other, MultiSigWalletBalance):
             if isinstance(other, (WalletBalance, WalletsBalance)):
-                return WalletsBalance().balance_add(self).balance_add(self)
+                return WalletsBalance().balance_add(self).balance_add(other)
             # can only merge 2 multi-signature wallet balances
             raise TypeError("other balance has to be of type multi-signature wallet balance")
         if self.address != other.address:
-- 
2.43.0


From ba73b6b22a21b7a4836763debd91f666f4d0d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 38/82] fix: the unconfirmed total of a balance without chain
 context is a currency, also if nothing is unconfirmed

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index aedeae6..7ac47dc 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1971,7 +1971,7 @@ class WalletBalance(object):
             return sum([co.value for co in self._outputs_unconfirmed.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
-            return sum([co.value for co in self._outputs_unconfirmed.values()])
+            return sum([co.value for co in self._outputs_unconfirmed.values()]) or Currency()
 
     @property
     def unconfirmed_locked(self):
-- 
2.43.0


From 9e30be208d1caef6c3a19400c62a0356173f09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 39/82] fix: an output already known as confirmed is not also
 counted as unconfirmed

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 7ac47dc..0e5a102 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2005,7 +2005,7 @@ class WalletBalance(object):
                 # delete from other output lists if prior registered
                 self._outputs_unconfirmed.pop(output.id, None)
                 self._outputs.pop(output.id, None)
-            elif output.id not in self._outputs_unconfirmed_spent:
+            elif output.id not in self._outputs_unconfirmed_spent and output.id not in self._outputs:
                 self._outputs_unconfirmed[output.id] = output
         self._addresses.add(str(output.condition.unlockhash))
 
-- 
2.43.0


From f84fd5c5eb75f54696f6c4733d3aa30350ca4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 40/82] fix: adding up balances no longer brings spent outputs
 back

---
 tfchain/TFChainWallet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 0e5a102..61bb52e 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2051,10 +2051,11 @@ class WalletBalance(object):
             self.chain_height = other.chain_height
             self.chain_blockid = other.chain_blockid
         # merge the outputs
-        for attr in ['_outputs', '_outputs_spent', '_outputs_unconfirmed', '_outputs_unconfirmed_spent']:
-            d = getattr(self, attr, {})
-            for id, output in getattr(other, attr, {}).items():
-                d[id] = output
+        for attr, confirmed, spent in [
+            ('_outputs', True, False), ('_outputs_spent', True, True),
+            ('_outputs_unconfirmed', False, False), ('_outputs_unconfirmed_spent', False, True)]:
+            for output in list(getattr(other, attr).values()):
+                WalletBalance.output_add(self, output, confirmed=confirmed, spent=spent)
         # merge the addresses
         self._addresses |= other._addresses
         # return the modified self
-- 
2.43.0


From 1044127a68a09d3b32c036941ccbd5b3dd61311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 41/82] fix: a sum of multi-signature wallet balances has the
 chain context of those balances

---
 tfchain/TFChainWallet.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 61bb52e..ec7afab 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2041,15 +2041,7 @@ class WalletBalance(object):
             raise TypeError("other balance has to be of type wallet balance")
         # another balance is defined, create a new balance that will contain our merge
         # merge the chain info
-        if self.chain_height >= other.chain_height:
-            if self.chain_time < other.chain_time:
-                raise ValueError("chain time and chain height of balances do not match")
-        else:
-            if self.chain_time >= other.chain_time:
-                raise ValueError("chain time and chain height of balances do not match")
-            self.chain_time = other.chain_time
-            self.chain_height = other.chain_height
-            self.chain_blockid = other.chain_blockid
+        self._chain_info_add(other)
         # merge the outputs
         for attr, confirmed, spent in [
             ('_outputs', True, False), ('_outputs_spent', True, True),
@@ -2061,6 +2053,20 @@ class WalletBalance(object):
         # return the modified self
         return self
 
+    def _chain_info_add(self, other):
+        """
+        Private helper utility to use the chain info of the other balance, if it is newer
+        """
+        if self.chain_height >= other.chain_height:
+            if self.chain_time < other.chain_time:
+                raise ValueError("chain time and chain height of balances do not match")
+        else:
+            if self.chain_time >= other.chain_time:
+                raise ValueError("chain time and chain height of balances do not match")
+            self.chain_time = other.chain_time
+            self.chain_height = other.chain_height
+            self.chain_blockid = other.chain_blockid
+
     def drain(self, recipient, miner_fee, unconfirmed=False, data=None, lock=None):
         """
         add all available outputs into as many transactions as required,
@@ -2260,6 +2266,7 @@ class WalletsBalance(WalletBalance):
         if not isinstance(other, WalletBalance):
             raise TypeError("other balance has to be of type wallet balance")
         if isinstance(other, MultiSigWalletBalance):
+            self._chain_info_add(other)
             self._merge_multisig_wallet_balance(other.address, other)
             return self
         # piggy-back on the super class for the actual output merge logic
-- 
2.43.0


From ed14e72912f1725c3ae95ee965b8bda3af993774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 42/82] fix: an output locked for a multi-signature wallet can
 be added to a balance

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index ec7afab..6a4a519 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2239,8 +2239,8 @@ class WalletsBalance(WalletBalance):
             raise TypeError("multi signature's output condition cannot be of type {} (expected: ConditionMultiSignature)".format(type(oc)))
         if not address in self._wallets:
             self._wallets[address] = MultiSigWalletBalance(
-                owners=output.condition.unlockhashes,
-                signature_count=output.condition.required_signatures)
+                owners=oc.unlockhashes,
+                signature_count=oc.required_signatures)
         self._wallets[address].output_add(output, confirmed=confirmed, spent=spent)
 
     def output_add(self, output, confirmed=True, spent=False):
-- 
2.43.0


From 3044f1f29ecf64fb5222cd77353a07965f95cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 43/82] fix: a multi-signature wallet balance that was added to
 another balance no longer changes along with it

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 6a4a519..3fac0d9 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2286,8 +2286,8 @@ class WalletsBalance(WalletBalance):
         Assign or merge a multi-sig wallet balance
         """
         if address not in self._wallets:
-            self._wallets[address] = balance
-            return
+            self._wallets[address] = MultiSigWalletBalance(
+                owners=balance._owners, signature_count=balance.signature_count)
         self._wallets[address] = self._wallets[address].balance_add(balance)
 
     def __repr__(self):
-- 
2.43.0


From a205638c54d0a65d71a30328c3c632b44b8e9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 44/82] fix: fund from a single source address given as text in
 a list

---
 tfchain/TFChainWallet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 3fac0d9..195ae41 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2319,10 +2319,9 @@ class WalletsBalance(WalletBalance):
                     raise TypeError("cannot add source address from type {}".format(type(source)))
                 source = [source]
             # add one or multiple personal/multisig addresses
+            source = [UnlockHash.from_json(value) if isinstance(value, str) else value for value in source]
             for value in source:
-                if isinstance(value, str):
-                    value = UnlockHash.from_json(value)
-                elif not isinstance(value, UnlockHash):
+                if not isinstance(value, UnlockHash):
                     raise TypeError("cannot add source address from type {}".format(type(value)))
                 if value.type == UnlockHashType.MULTI_SIG:
                     ms_addresses.add(value)
-- 
2.43.0


From 820f6319c7cdcf39a267f09c8f6c55c68f130ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 45/82] fix: give up the smallest outputs, not the first ones,
 to stay within the limit of inputs

---
 tfchain/TFChainWallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 195ae41..4590f57 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2378,7 +2378,7 @@ class WalletsBalance(WalletBalance):
             outputs.append(co)
             if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
                 # to not reach the input limit
-                collected -= outputs.pop(0).value
+                collected -= outputs.pop(outputs.index(min(outputs, key=lambda co: co.value))).value
             if collected >= amount:
                 return outputs, collected
 
@@ -2396,7 +2396,7 @@ class WalletsBalance(WalletBalance):
             outputs.append(co)
             if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
                 # to not reach the input limit
-                collected -= outputs.pop(0).value
+                collected -= outputs.pop(outputs.index(min(outputs, key=lambda co: co.value))).value
             if collected >= amount:
                 return outputs, collected
 
@@ -2423,7 +2423,7 @@ class WalletsBalance(WalletBalance):
                 outputs.append(co)
                 if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
                     # to not reach the input limit
-                    collected -= outputs.pop(0).value
+                    collected -= outputs.pop(outputs.index(min(outputs, key=lambda co: co.value))).value
                 if collected >= amount:
                     return outputs, collected
 
@@ -2441,7 +2441,7 @@ class WalletsBalance(WalletBalance):
                 outputs.append(co)
                 if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
                     # to not reach the input limit
-                    collected -= outputs.pop(0).value
+                    collected -= outputs.pop(outputs.index(min(outputs, key=lambda co: co.value))).value
                 if collected >= amount:
                     return outputs, collected
         # we return whatever we have collected, no matter if it is sufficient
-- 
2.43.0


From f21223bc77c0395abe326b42fda0b8f4d4fd883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 46/82] fix: refuse a second send of a coin transaction builder
 with the error for consumed builders

---
 tfchain/TFChainWallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 4590f57..f632a6c 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2487,6 +2487,8 @@ class CoinTransactionBuilder():
         return self
 
     def send(self, source=None, refund=None, data=None):
+        if self._txn is None:
+            raise RuntimeError("coin transaction builder is already consumed")
         txn = self._txn
         self._txn = None
 
-- 
2.43.0


From 8682f6f2474fe63c13d784ccbaaf5934764124cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 47/82] fix: refuse a multi-signature recipient nobody could
 spend from

---
 tfchain/types/ConditionTypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index eb4132b..4ef5e7d 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -59,6 +59,9 @@ def from_recipient(recipient, lock=None):
                 condition = multi_signature_new(min_nr_sig=recipient[1], unlockhashes=recipient[0])
         else:
             raise TypeError("invalid type for recipient parameter: {}", type(recipient))
+        if isinstance(recipient, (list, tuple)) and not 1 <= condition.required_signatures <= len(condition.unlockhashes):
+            raise ValueError("a multi-signature recipient cannot require {} signature(s) of {} owner(s)".format(
+                condition.required_signatures, len(condition.unlockhashes)))
     
     # if lock is defined, define it as a locktime value
     if lock is not None:
-- 
2.43.0


From 5e3fed39a511778f70cc1e817322a651cd84779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 48/82] fix: take secrets and nonces from the operating system,
 as the random module can be predicted

---
 tfchain/internal/jsutils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index ee27fa7..c9ad400 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -1,3 +1,4 @@
+import os
 import re
 import random
 from datetime import datetime, timedelta
@@ -35,10 +36,7 @@ def generateXCharID(x):
 
 
 def generateXByteID(x):
-    out = bytearray()
-    for _ in range(0, x):
-        out.append(generateRandomInt(0, 255))
-    return out
+    return bytearray(os.urandom(x))
 
 
 # TIME
-- 
2.43.0


From c8a962e8a5c0a1148779acddc2534d63fb01287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 49/82] fix: sign the refund of an atomic swap with the key of
 the sender, also when the wallet owns the receiver too

---
 tfchain/TFChainWallet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index f632a6c..a0cd438 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1182,8 +1182,11 @@ class TFChainAtomicSwap():
         if len(sig_requests) == 0:
             raise Exception("BUG: sig requests should not be empty at this point, please fix or report as an issue")
 
-        # fulfill the signature requests that we can fulfill
+        # fulfill the signature request of the party that claims the contract
+        claimer = str(contract.sender if as_sender else contract.receiver)
         for request in sig_requests:
+            if str(request.wallet_address) != claimer:
+                continue
             try:
                 key_pair = self._wallet.key_pair_get(request.wallet_address)
                 input_hash = request.input_hash_new(public_key=key_pair.public_key)
-- 
2.43.0


From 40a0e2623a0305908e5b00df4b6fe77473be54b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 50/82] fix: refuse to claim an atomic swap which is not worth
 more than the fee

---
 tfchain/TFChainWallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index a0cd438..95b4595 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1168,6 +1168,9 @@ class TFChainAtomicSwap():
         # create the contract and fill in the easy content
         txn = tftransactions.new()
         miner_fee = self._minium_miner_fee
+        # the claimed output has to be worth something
+        if contract.amount <= miner_fee:
+            raise tfchain.errors.AtomicSwapInsufficientAmountError(amount=contract.amount, minimum_miner_fee=miner_fee)
         txn.miner_fee_add(miner_fee)
         txn.data = data
         # define the coin input
-- 
2.43.0


From f20794cde5f68e2cc4f4ce43b25795b8b2f671e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 51/82] fix: refuse a 3Bot registration with empty lists of
 names and addresses

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 95b4595..5b5fda8 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1282,10 +1282,10 @@ class TFChainThreeBot():
         # create the txn and fill the easiest properties already
         txn = tftransactions.threebot_registration_new()
         txn.number_of_months = months
-        if names is None and addresses is None:
-            raise ValueError("at least one name or one address is to be given, none is defined")
         txn.names = names
         txn.addresses = addresses
+        if len(txn.names) == 0 and len(txn.addresses) == 0:
+            raise ValueError("at least one name or one address is to be given, none is defined")
 
         # get the fees, and fund the transaction
         balance = self._fund_txn(txn, source, refund)
-- 
2.43.0


From 93b274e25086be9523bd5c76abd4b92608fb291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 52/82] fix: refuse a 3Bot record update with nothing but empty
 lists

---
 tfchain/TFChainWallet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 5b5fda8..24c2552 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1323,9 +1323,6 @@ class TFChainThreeBot():
         @param source: one or multiple addresses/unlockhashes from which to fund this coin send transaction, by default all personal wallet addresses are used, only known addresses can be used
         @param refund: optional refund address, by default is uses the source if it specifies a single address otherwise it uses the default wallet address (recipient type, with None being the exception in its interpretation)
         """
-        if months < 1 and not reduce((lambda r, v: r or (v is not None)), [names_to_add, names_to_remove, addresses_to_add, addresses_to_remove], False):
-            raise ValueError("extra months is to be given or one name/address is to be added/removed, none is defined")
-
         # create the txn and fill the easiest properties already
         txn = tftransactions.threebot_record_update_new()
         txn.botid = identifier
@@ -1334,6 +1331,8 @@ class TFChainThreeBot():
         txn.names_to_remove = names_to_remove
         txn.addresses_to_add = addresses_to_add
         txn.addresses_to_remove = addresses_to_remove
+        if months < 1 and not (txn.names_to_add or txn.names_to_remove or txn.addresses_to_add or txn.addresses_to_remove):
+            raise ValueError("extra months is to be given or one name/address is to be added/removed, none is defined")
 
         # get the 3Bot Public Key
         record = self._wallet.client.threebot.record_get(identifier)
-- 
2.43.0


From 6fea180649b8ea0190a1ada395c444169e00999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 53/82] fix: sign for the 3Bots of a record update or name
 transfer which was handed over as JSON

---
 tfchain/TFChainWallet.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 24c2552..21ef84c 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -19,6 +19,7 @@ from tfchain.types.AtomicSwap import AtomicSwapContract
 from tfchain.types.ERC20 import ERC20Address
 from tfchain.types.transactions.Base import TransactionBaseClass
 from tfchain.types.transactions.Minting import TransactionV128, TransactionV129
+from tfchain.types.transactions.ThreeBot import TransactionV145, TransactionV146
 
 _DEFAULT_KEY_SCAN_COUNT = 3
 
@@ -477,6 +478,16 @@ class TFChainWallet:
             # define the current fulfillment if it is not defined
             if not txn.mint_fulfillment_defined():
                 txn.mint_fulfillment = FulfillmentTypes.from_condition(txn.parent_mint_condition)
+        elif isinstance(txn, (TransactionV145, TransactionV146)):
+            # set the public keys of the 3Bots, which are not part of a JSON-encoded txn
+            try:
+                if isinstance(txn, TransactionV145):
+                    txn.parent_public_key = self.client.threebot.record_get(txn.botid).public_key
+                else:
+                    txn.sender_parent_public_key = self.client.threebot.record_get(txn.sender_botid).public_key
+                    txn.receiver_parent_public_key = self.client.threebot.record_get(txn.receiver_botid).public_key
+            except tfchain.errors.ThreeBotNotFound:
+                pass # nobody can sign for a 3Bot that does not exist
 
         # generate the signature requests
         sig_requests = txn.signature_requests_new()
-- 
2.43.0


From 62df110f3056767aad3ac86499505a555d2285c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 54/82] fix: refuse to encode a number that is no integer,
 instead of cutting it off

---
 tfchain/encoders/rivine.py | 5 ++++-
 tfchain/encoders/sia.py    | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index fedeb67..f32c6ba 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -1,3 +1,4 @@
+from numbers import Number
 from tfchain.encoders.exceptions import IntegerOutOfRange, SliceLengthOutOfRange
 
 _INT_1BYTE_UPPERLIMIT = pow(2, 8) - 1
@@ -87,6 +88,8 @@ class RivineBinaryEncoder:
         if not isinstance(value, int) and not hasattr(value, '__int__'):
             raise TypeError("value is not an integer")
         ivalue = int(value)
+        if isinstance(value, Number) and ivalue != value:
+            raise TypeError("value is not an integer")
         if ivalue < 0:
             raise IntegerOutOfRange(
                 "integer {} is out of lower range of 0".format(ivalue))
@@ -202,7 +205,7 @@ class RivineBinaryEncoder:
         @param value: the value to be added as a single byte
         """
         if isinstance(value, int) or hasattr(value, '__int__'):
-            self.add_int8(int(value))
+            self.add_int8(value)
         else:
             if isinstance(value, str):
                 value = value.encode('utf-8')
diff --git a/tfchain/encoders/sia.py b/tfchain/encoders/sia.py
index 57a9822..d7f6440 100644
--- a/tfchain/encoders/sia.py
+++ b/tfchain/encoders/sia.py
@@ -1,3 +1,4 @@
+from numbers import Number
 from tfchain.encoders.exceptions import IntegerOutOfRange, SliceLengthOutOfRange
 
 _INT_UPPERLIMIT = pow(2, 64) - 1
@@ -107,6 +108,9 @@ class SiaBinaryEncoder:
             self._data += value.to_bytes(1, byteorder='little')
         elif hasattr(value, '__int__'):
             ivalue = int(value)
+            if isinstance(value, Number) and ivalue != value:
+                raise ValueError(
+                    "value of type {} cannot be added as a single byte".format(type(value)))
             if ivalue < 0 or ivalue > 255:
                 raise ValueError(
                     "byte overflow: invaid value of {}".format(ivalue))
-- 
2.43.0


From 764e13d8e90c3f733ade110fe646439cc3050936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 55/82] fix: refuse a number of months that is no integer

---
 tfchain/types/transactions/ThreeBot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 3a23c38..14e2937 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -262,6 +262,8 @@ class TransactionV144(BotTransactionBaseClass):
 
     @number_of_months.setter
     def number_of_months(self, n):
+        if not isinstance(n, int):
+            raise TypeError("number of months has to be an integer, cannot be of type {}".format(type(n)))
         if n < 1 or n > 24:
             raise ValueError("number of months for a 3Bot Registration Transaction has to be in the inclusive range [1,24]")
         self._number_of_months = n
@@ -669,6 +671,8 @@ class TransactionV145(BotTransactionBaseClass):
 
     @number_of_months.setter
     def number_of_months(self, n):
+        if not isinstance(n, int):
+            raise TypeError("number of months has to be an integer, cannot be of type {}".format(type(n)))
         if n < 0 or n > 24:
             raise ValueError("number of months for a 3Bot Record Update has to be in the inclusive range [0,24]")
         self._number_of_months = n
-- 
2.43.0


From aca48919a5a767645db38b02fedd99f0bd48e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 56/82] fix: refuse to convert coins for an ERC20 address that
 is not given, instead of the zero address

---
 tfchain/TFChainWallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 21ef84c..cea4f7c 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1531,6 +1531,8 @@ class TFChainERC20():
         amount = Currency(value=amount)
         if amount <= 0:
             raise ValueError("no amount is defined to be sent")
+        if not ERC20Address.is_valid_value(address):
+            raise ValueError("value {} (type: {}) is not a valid ERC20 address".format(address, type(address)))
 
         # create transaction
         txn = tftransactions.erc20_convert_new()
-- 
2.43.0


From 7b77305c88f5c2086ba77fe715c9107eb81887d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 57/82] fix: drop signatures of former minters when a mint
 transaction is signed under a new minter definition

---
 tfchain/TFChainWallet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index cea4f7c..1253f8b 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -478,6 +478,10 @@ class TFChainWallet:
             # define the current fulfillment if it is not defined
             if not txn.mint_fulfillment_defined():
                 txn.mint_fulfillment = FulfillmentTypes.from_condition(txn.parent_mint_condition)
+            elif isinstance(txn.mint_fulfillment, FulfillmentMultiSignature):
+                # signatures of former minters do not count (any longer)
+                minters = [str(uh) for uh in getattr(txn.parent_mint_condition.unwrap(), 'unlockhashes', [])]
+                txn.mint_fulfillment.pairs = [pair for pair in txn.mint_fulfillment.pairs if str(pair.public_key.unlockhash) in minters]
         elif isinstance(txn, (TransactionV145, TransactionV146)):
             # set the public keys of the 3Bots, which are not part of a JSON-encoded txn
             try:
-- 
2.43.0


From 72e677d1b0b5922d4d558aeb6f6372ecb8ef0b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 58/82] fix: refuse the address of a multi-signature wallet as
 minter, as nobody could sign for it

---
 tfchain/TFChainWallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 1253f8b..3a4189b 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -662,6 +662,9 @@ class TFChainMinter():
         ut = txn.mint_condition.unlockhash.type
         if ut not in (UnlockHashType.PUBLIC_KEY, UnlockHashType.MULTI_SIG):
             raise ValueError("{} is an invalid unlock hash type and cannot be used for a minter definition".format(ut))
+        # a MultiSig wallet has to be defined by its owners, nobody can sign for its address alone
+        if ut == UnlockHashType.MULTI_SIG and not isinstance(txn.mint_condition.unwrap(), ConditionMultiSignature):
+            raise ValueError("a multi-signature minter has to be defined by its owners, {} is only an address".format(txn.mint_condition.unlockhash))
 
         # optionally set the data
         if data is not None:
-- 
2.43.0


From d2ee99cac0c2d087d6b53c5b23967456408f4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 59/82] fix: find every used key within the scan distance, and
 lose no skipped key

---
 tfchain/TFChainWallet.py | 62 ++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 3a4189b..11dc5bd 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -265,44 +265,30 @@ class TFChainWallet:
         # key track of start key count, so we can easily check at the end,
         # if we indeed scanned for any new keys
         key_count_start = self.key_count
-        # generate the key pairs, without integrating them already
-        # loop, and do this until now more are found:
-        while True:
-            pairs = []
-            used_pairs = []
-            for offset in range(count):
-                pairs.append(self._key_pair_new(integrate=False, offset=offset))
-            for pair in pairs:
-                address = str(pair.unlockhash)
-                try:
-                    self._unlockhash_get(address)
-                    # register this pair as a known index
-                    used_pairs.append(True)
-                except tfchain.errors.ExplorerNoContent:
-                    # ignore this exception as it simply means
-                    # the address has no activity yet on the chain
-                    used_pairs.append(False)
-                    pass
-            # check if any address was found
-            if not reduce(lambda a, b: a or b, used_pairs):
-                break
-
-            last_index = 0
-            for idx, pair in enumerate(pairs):
-                if used_pairs[idx]:
-                    last_index = idx
-                    self._key_pair_add(pair, add_count=False)
-                else:
-                    self._unused_key_pairs.append(pair)
-            # remove the unused pairs that came after the last known index
-            self._unused_key_pairs = self._unused_key_pairs[:-count+last_index]
-            # update the new key count
-            self._key_count += last_index + 1
-
-            # if the last pair is not used, we can stop scanning
-            if not used_pairs[-1]:
-                break
-            # otherwise continue
+        # generate the key pairs, without integrating them already,
+        # until none of the last `count` key pairs has been used
+        used_pairs = []
+        unused_pairs = []
+        trailing_pairs = [] # unused pairs that come after the last used pair
+        while len(trailing_pairs) < count:
+            pair = self._key_pair_new(integrate=False, offset=len(used_pairs)+len(unused_pairs)+len(trailing_pairs))
+            try:
+                self._unlockhash_get(str(pair.unlockhash))
+            except tfchain.errors.ExplorerNoContent:
+                # ignore this exception as it simply means
+                # the address has no activity yet on the chain
+                trailing_pairs.append(pair)
+                continue
+            # register this pair, as well as that the pairs prior to it have been skipped
+            used_pairs.append(pair)
+            unused_pairs += trailing_pairs
+            trailing_pairs = []
+
+        # integrate the result only now, such that a failing explorer cannot leave us with half of it
+        for pair in used_pairs:
+            self._key_pair_add(pair, add_count=False)
+        self._unused_key_pairs = unused_pairs
+        self._key_count += len(used_pairs) + len(unused_pairs)
 
         # return if we scanned new keys
         return self.key_count > key_count_start
-- 
2.43.0


From 7fc11236bddd648e124edc3021844a30747f0c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 60/82] fix: leave outputs that are not worth the miner fee out
 of a drain, instead of failing or sending nothing

---
 tfchain/TFChainWallet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 11dc5bd..9cdc652 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2118,8 +2118,12 @@ class WalletBalance(object):
             n = min(len(outputs), _MAX_RIVINE_TRANSACTION_INPUTS)
             used_outputs = outputs[:n]
             outputs = outputs[n:] # and update our output list, so we do not double spend
+            # outputs that aren't worth the miner fee are left alone
+            total = sum([co.value for co in used_outputs])
+            if total <= miner_fee:
+                continue
             # compute amount, minus minimum fee and add our only output
-            amount = sum([co.value for co in used_outputs]) - miner_fee
+            amount = total - miner_fee
             txn.coin_output_add(condition=recipient, value=amount)
             # add the coin inputs
             txn.coin_inputs = [CoinInput.from_coin_output(co) for co in used_outputs]
-- 
2.43.0


From 913458533b11cf5bfc6a17ed543bc92b0bccceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 61/82] fix: read the whole answer of an explorer, not just its
 first line, and ask another one if it is cut short

---
 tfchain/TFChainExplorerClient.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index dcdf201..674fce0 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -5,6 +5,7 @@ import tfchain
 from tfchain.internal.jsutils import json_dumps, json_loads
 from tfchain.internal.HttpClient import HTTPError, HttpClient
 import random
+from http.client import HTTPException
 
 http = HttpClient()
 
@@ -45,7 +46,7 @@ class TFChainExplorerClient:
                 # do the request and check the response
                 resp = http.get(url=address+endpoint, headers=headers)
                 if resp.getcode() == 200:
-                    return resp.readline()
+                    return resp.read()
                 if resp.getcode() == 204:
                     raise tfchain.errors.ExplorerNoContent("GET: no content available (code: 204)", endpoint)
                 raise tfchain.errors.ExplorerServerError("error (code: {})".format(resp.getcode()), endpoint)
@@ -59,6 +60,8 @@ class TFChainExplorerClient:
                 if e.status_code:
                     raise tfchain.errors.ExplorerServerError("GET: error (code: {}): {}".format(e.status_code, e.msg), endpoint)
                 print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
+            except (OSError, HTTPException) as e:
+                print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
         raise tfchain.errors.ExplorerNotAvailable("no explorer was available", endpoint=endpoint, addresses=self._addresses)
 
     def post(self, endpoint, data):
@@ -92,11 +95,12 @@ class TFChainExplorerClient:
                 # do the request and check the response
                 resp = http.post(url=address+endpoint, data=data, headers=headers)
                 if resp.getcode() == 200:
-                    return resp.readline()
+                    return resp.read()
                 raise tfchain.errors.ExplorerServerPostError("POST: unexpected error (code: {})".format(resp.getcode()), endpoint, data=data)
             except HTTPError as e:
                 if e.status_code:
                     raise tfchain.errors.ExplorerServerPostError("POST: error (code: {}): {}".format(e.status_code, e.msg), endpoint, data=data)
                 print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
-                pass
+            except (OSError, HTTPException) as e:
+                print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
         raise tfchain.errors.ExplorerNotAvailable("no explorer was available", endpoint=endpoint, addresses=self._addresses)
-- 
2.43.0


From db3cc0db2dfd7b7efd14a2d66003ea07e3c5f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 62/82] fix: raise the HTTP error of an unexpected status,
 instead of a TypeError of its message

---
 tfchain/internal/HttpClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 9d46d46..067b160 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -208,8 +208,8 @@ class Connection():
 
         #if resp.code in STATUS_AUTH_REQ: raise AuthorizationError('Not logged in or token expired')
         if resp.code not in (STATUS_OK):
-            raise Exception(
-                'unexpected HTTP response status %s: %s' % resp.code, resp)
+            raise HTTPError(urllib.error.HTTPError(
+                resp.url, resp.code, 'unexpected HTTP response status', resp.headers, resp), url)
         return resp
 
 
-- 
2.43.0


From 847e0c75c9b3e0586871b201665a10f15141a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 63/82] fix: report the status of an error answer also if its
 content cannot be read

---
 tfchain/TFChainExplorerClient.py | 2 +-
 tfchain/internal/HttpClient.py   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index 674fce0..af3005a 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -54,7 +54,7 @@ class TFChainExplorerClient:
                 if e.status_code == 400:
                     msg = e.msg
                     if isinstance(msg, (bytes, bytearray)):
-                        msg = msg.decode('utf-8')
+                        msg = msg.decode('utf-8', errors='replace')
                     if isinstance(msg, str) and (('unrecognized hash' in msg) or ('not found' in msg)):
                         raise tfchain.errors.ExplorerNoContent("GET: no content available for specified hash (code: 400)", endpoint)
                 if e.status_code:
diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 067b160..e840d1f 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -5,6 +5,7 @@ import urllib.request
 import urllib.parse
 import urllib.error
 import base64
+import http.client
 
 from urllib.parse import urlencode, urlparse, urlunparse
 import urllib.parse
@@ -37,8 +38,11 @@ class HTTPError(Exception):
         data = ''
         self.status_code = None
         if isinstance(httperror, urllib.error.HTTPError):
-            msg = data = httperror.read()
             self.status_code = httperror.code
+            try:
+                msg = data = httperror.read()
+            except (OSError, http.client.HTTPException) as e:
+                msg = 'Could not read the error response of url %s: %s' % (url, e)
         self.msg = msg
         self.data = data
         self.httperror = httperror
-- 
2.43.0


From ba3570ae57994a739f2c9311ae5700cc8b2d39cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 64/82] fix: give up on an explorer that does not answer,
 instead of waiting for it forever

---
 tfchain/internal/HttpClient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index e840d1f..e7100df 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -28,6 +28,9 @@ HTTP_NOT_FOUND = 404
 STATUS_OK = set([HTTP_CREATED, HTTP_OK, HTTP_NO_CONTENT])
 STATUS_AUTH_REQ = set([HTTP_AUTH_REQUIRED, HTTP_FORBIDDEN])
 
+# seconds to wait for a server that does not answer
+HTTP_TIMEOUT = 60
+
 AUTHORIZATION_HEADER = 'Authorization'
 
 
@@ -206,7 +209,7 @@ class Connection():
             method = 'POST' if data else 'GET'
         request.get_method = lambda: method
         try:
-            resp = urllib.request.urlopen(request)
+            resp = urllib.request.urlopen(request, timeout=HTTP_TIMEOUT)
         except Exception as e:
             raise HTTPError(e, url)
 
-- 
2.43.0


From 052ebc8f24edbda90d94838c442bcab91bb7a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 65/82] fix: ask the other explorers if one answers with an
 error

---
 tfchain/TFChainExplorerClient.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index af3005a..4266d21 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -36,6 +36,7 @@ class TFChainExplorerClient:
         """
         indices = list(range(len(self._addresses)))
         random.shuffle(indices)
+        error = None
         for idx in indices:
             try:
                 address = self._addresses[idx]
@@ -49,7 +50,7 @@ class TFChainExplorerClient:
                     return resp.read()
                 if resp.getcode() == 204:
                     raise tfchain.errors.ExplorerNoContent("GET: no content available (code: 204)", endpoint)
-                raise tfchain.errors.ExplorerServerError("error (code: {})".format(resp.getcode()), endpoint)
+                error = tfchain.errors.ExplorerServerError("error (code: {})".format(resp.getcode()), endpoint)
             except HTTPError as e:
                 if e.status_code == 400:
                     msg = e.msg
@@ -58,10 +59,12 @@ class TFChainExplorerClient:
                     if isinstance(msg, str) and (('unrecognized hash' in msg) or ('not found' in msg)):
                         raise tfchain.errors.ExplorerNoContent("GET: no content available for specified hash (code: 400)", endpoint)
                 if e.status_code:
-                    raise tfchain.errors.ExplorerServerError("GET: error (code: {}): {}".format(e.status_code, e.msg), endpoint)
+                    error = tfchain.errors.ExplorerServerError("GET: error (code: {}): {}".format(e.status_code, e.msg), endpoint)
                 print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
             except (OSError, HTTPException) as e:
                 print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
+        if error is not None:
+            raise error
         raise tfchain.errors.ExplorerNotAvailable("no explorer was available", endpoint=endpoint, addresses=self._addresses)
 
     def post(self, endpoint, data):
@@ -74,6 +77,7 @@ class TFChainExplorerClient:
         """
         indices = list(range(len(self._addresses)))
         random.shuffle(indices)
+        error = None
         for idx in indices:
             try:
                 address = self._addresses[idx]
@@ -96,11 +100,13 @@ class TFChainExplorerClient:
                 resp = http.post(url=address+endpoint, data=data, headers=headers)
                 if resp.getcode() == 200:
                     return resp.read()
-                raise tfchain.errors.ExplorerServerPostError("POST: unexpected error (code: {})".format(resp.getcode()), endpoint, data=data)
+                error = tfchain.errors.ExplorerServerPostError("POST: unexpected error (code: {})".format(resp.getcode()), endpoint, data=data)
             except HTTPError as e:
                 if e.status_code:
-                    raise tfchain.errors.ExplorerServerPostError("POST: error (code: {}): {}".format(e.status_code, e.msg), endpoint, data=data)
+                    error = tfchain.errors.ExplorerServerPostError("POST: error (code: {}): {}".format(e.status_code, e.msg), endpoint, data=data)
                 print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
             except (OSError, HTTPException) as e:
                 print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
+        if error is not None:
+            raise error
         raise tfchain.errors.ExplorerNotAvailable("no explorer was available", endpoint=endpoint, addresses=self._addresses)
-- 
2.43.0


From 9fbb78eac47563b08f1156cf190cc8603e5ce415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 66/82] fix: refuse the name of an unknown network, instead of
 a client without a network

---
 tfchain/TFChainClient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index ed9e240..b449ff0 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -48,6 +48,7 @@ class NetworkType:
             return NetworkType.TESTNET
         if s == "devnet":
             return NetworkType.DEVNET
+        raise ValueError("unknown network type: {}".format(s))
 
     def minimum_miner_fee(self):
         if self == NetworkType.DEVNET:
-- 
2.43.0


From 79158bcbd8afc4f83d663090d3b778eae3f09261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 67/82] fix: show the version of a transaction as its number,
 not as an object

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index d56031e..d826730 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -203,7 +203,7 @@ class TransactionBaseClass(ABC):
         return obj
 
     def __str__(self):
-        s = "transaction v{}".format(self.version)
+        s = "transaction v{}".format(int(self.version))
         if self.id:
             s += " {}".format(self.id)
         return s
-- 
2.43.0


From 8af6e19920eda491f89f96e766a0d1a2984322c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 68/82] fix: keep the amount of an output apart from the
 currency it was created with

---
 tfchain/types/IO.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tfchain/types/IO.py b/tfchain/types/IO.py
index 564685d..f916997 100644
--- a/tfchain/types/IO.py
+++ b/tfchain/types/IO.py
@@ -143,9 +143,7 @@ class CoinOutput(BaseDataTypeClass):
 
     @value.setter
     def value(self, value):
-        if isinstance(value, Currency):
-            self._value = value
-            return
+        # always a copy, as a currency can be modified in place
         self._value = Currency(value=value)
 
     @property
-- 
2.43.0


From ab2d5c9e8a7734b4e074b5d0466f553619aae190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 69/82] fix: refuse to lock a condition which cannot be locked

---
 tfchain/types/ConditionTypes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 4ef5e7d..3349875 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -664,6 +664,8 @@ class ConditionLockTime(ConditionBaseClass):
             return
         if not isinstance(value, ConditionBaseClass):
             raise TypeError("ConditionLockTime's condition is expected to be a subtype of ConditionBaseClass, not of type {}".format(type(value)))
+        if value.type not in (_CONDITION_TYPE_UNLOCK_HASH, _CONDITION_TYPE_MULTI_SIG, _CONDITION_TYPE_NIL):
+            raise ValueError("internal condition of ConditionLockTime cannot be of type {}".format(value.type))
         self._condition = value
 
     def unwrap(self):
@@ -671,10 +673,7 @@ class ConditionLockTime(ConditionBaseClass):
 
     def from_json_data_object(self, data):
         self.lock = int(data['locktime'])
-        cond = from_json(obj=data['condition'])
-        if cond.type not in(_CONDITION_TYPE_UNLOCK_HASH, _CONDITION_TYPE_MULTI_SIG, _CONDITION_TYPE_NIL):
-            raise ValueError("internal condition of ConditionLockTime cannot be of type {}".format(cond.type))
-        self.condition = cond
+        self.condition = from_json(obj=data['condition'])
 
     def json_data_object(self):
         return {
-- 
2.43.0


From 559a6093d6cc096207eea03469a24f719f41c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 70/82] fix: only the owners of a multi-signature condition
 count, and each once

---
 tfchain/types/FulfillmentTypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 0d7130a..076d380 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -403,7 +403,12 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         parent_condition = parent_condition.unwrap()
         if not isinstance(parent_condition, ConditionMultiSignature):
             raise TypeError("parent condition of FulfillmentMultiSignature cannot be of type {}".format(type(parent_condition)))
-        return len(self._pairs) >= parent_condition.required_signatures
+        count = len(self._pairs)
+        if parent_condition.unlockhashes:
+            # only the owners can sign, and each of them only once
+            signed = set(str(pair.public_key.unlockhash) for pair in self._pairs)
+            count = len(signed.intersection(str(uh) for uh in parent_condition.unlockhashes))
+        return count >= parent_condition.required_signatures
 
 
 class PublicKeySignaturePair(BaseDataTypeClass):
-- 
2.43.0


From 9d79082753b2237c41cc60c1f433a2a6f3a07dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 71/82] fix: give the root of an empty Merkle tree, instead of
 a TypeError of another function

---
 tfchain/crypto/merkletree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/crypto/merkletree.py b/tfchain/crypto/merkletree.py
index 1cbea49..34a83e6 100644
--- a/tfchain/crypto/merkletree.py
+++ b/tfchain/crypto/merkletree.py
@@ -54,7 +54,7 @@ class Tree:
         // Root returns the Merkle root of the data that has been pushed.
         """
         if self.head is None:
-            return sum(self.hash_func, bytearray())
+            return sum_(self.hash_func, bytearray())
 
         # // The root is formed by hashing together subTrees in order from least in
         # // height to greatest in height. The taller subtree is the first subtree in
-- 
2.43.0


From ff14532f08909000542c78acad0d2672dec00272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:40 +0000
Subject: [PATCH 72/82] fix: a wallet keeps its own copy of the seed it is
 given

---
 tfchain/TFChainWallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 9cdc652..bc92a38 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -61,6 +61,8 @@ class TFChainWallet:
             self._seed = self._mnemonic_api.to_entropy(self._seed)
         elif not isinstance (self._seed, (bytearray, bytes)):
             raise TypeError("seed has to be a mnemonic or raw (bytes) seed, not be of type {}".format(type(self._seed)))
+        # keep our own copy, as the given seed can be cleared by the one who gave it
+        self._seed = bytes(self._seed)
 
         # add key count and key_start_index
         self._key_count = max(1, key_count)
-- 
2.43.0


From 4c77a0597579949a48da988a216168805e863826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 73/82] fix: a coin transaction that is submitted is not
 reported as failed

---
 tfchain/TFChainWallet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index bc92a38..dd54676 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -396,13 +396,14 @@ class TFChainWallet:
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # (look up our addresses first, such that nothing can fail once the transaction is submitted)
+            addresses = self.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -2556,13 +2557,14 @@ class CoinTransactionBuilder():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # (look up our addresses first, such that nothing can fail once the transaction is submitted)
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._wallet._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
-- 
2.43.0


From a8157f1d328bff2f5b30d20eac967ab9377f0f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:39 +0000
Subject: [PATCH 74/82] fix: a signed transaction that is submitted is not
 reported as failed

---
 tfchain/TFChainWallet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index dd54676..3167975 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -506,8 +506,9 @@ class TFChainWallet:
         is_fulfilled = txn.is_fulfilled()
         submit = (submit and is_fulfilled)
         if submit:
-            txn.id = self._transaction_put(transaction=txn)
+            # (look up our addresses first, such that nothing can fail once the transaction is submitted)
             addresses = self.addresses + balance.addresses_multisig
+            txn.id = self._transaction_put(transaction=txn)
             # update balance
             for ci in txn.coin_inputs:
                 if str(ci.parent_output.condition.unlockhash) in addresses:
-- 
2.43.0


From b66ac9d5aeec09dd8bce3730ea6f1181cad3534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:40 +0000
Subject: [PATCH 75/82] fix: coins that are minted are not reported as failed

---
 tfchain/TFChainWallet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 3167975..6ad2078 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -761,9 +761,10 @@ class TFChainMinter():
 
         submit = txn.is_fulfilled()
         if submit:
+            # (look up our addresses first, such that nothing can fail once the transaction is submitted)
+            addresses = self._wallet.addresses + balance.addresses_multisig
             txn.id = self._transaction_put(transaction=txn)
             # update balance of wallet
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
-- 
2.43.0


From 9e81546673b758e2a1b148772e4a293e183e9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 76/82] fix: an atomic swap that is submitted is not reported
 as failed, and its secret not lost

---
 tfchain/TFChainWallet.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 6ad2078..5c7528c 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -843,6 +843,9 @@ class TFChainAtomicSwap():
         secret = AtomicSwapSecret.random()
         secret_hash = AtomicSwapSecretHash.from_secret(secret)
 
+        # look up the chain time first, such that the secret cannot be lost once the contract is submitted
+        chain_time = self._chain_time
+
         # create the contract
         result = self._create_contract(
             recipient=participator, amount=amount, refund_time=refund_time,
@@ -852,7 +855,7 @@ class TFChainAtomicSwap():
         # return the contract, transaction, submission status as well as secret
         return AtomicSwapInitiationResult(
             AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True,
-                current_timestamp=self._chain_time),
+                current_timestamp=chain_time),
             secret, result.transaction, result.submitted)
 
     def participate(self, initiator, amount, secret_hash, refund_time='+24h', source=None, refund=None, data=None, submit=True):
@@ -883,12 +886,15 @@ class TFChainAtomicSwap():
         # normalize secret hash
         secret_hash = AtomicSwapSecretHash(value=secret_hash)
 
+        # look up the chain time first, such that nothing can fail once the contract is submitted
+        chain_time = self._chain_time
+
         # create the contract and return the contract, transaction and submission status
         result = self._create_contract(
             recipient=initiator, amount=amount, refund_time=refund_time, source=source,
             refund=refund, data=data, secret_hash=secret_hash, submit=submit)
         return AtomicSwapParticipationResult(
-            AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True, current_timestamp=self._chain_time),
+            AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True, current_timestamp=chain_time),
             result.transaction, result.submitted)
 
     def verify(self, outputid, amount=None, secret_hash=None, min_refund_time=None, sender=False, receiver=False, contract=None):
@@ -1158,11 +1164,12 @@ class TFChainAtomicSwap():
         # submit if possible
         submit = submit and txn.is_fulfilled()
         if submit:
+            # (look up our addresses first, such that nothing can fail once the transaction is submitted)
+            addresses = self._wallet.addresses + balance.addresses_multisig
             txn.id = self._transaction_put(transaction=txn)
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     balance.output_add(co, confirmed=False, spent=False)
@@ -1212,11 +1219,12 @@ class TFChainAtomicSwap():
         if not submit:
             raise Exception("BUG: transaction should be fulfilled at ths point, please fix or report as an isuse")
 
+        # (look up our balance and addresses first, such that nothing can fail once the transaction is submitted)
+        balance = self._wallet.balance
+        addresses = self._wallet.addresses
         # assign transactionid
         txn.id = self._transaction_put(transaction=txn)
         # update balance
-        balance = self._wallet.balance
-        addresses = self._wallet.addresses
         for idx, co in enumerate(txn.coin_outputs):
             if str(co.condition.unlockhash) in addresses:
                 co.id = txn.coin_outputid_new(idx)
-- 
2.43.0


From f04d1f6b68f0c0124b975990464db2521aeb6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:42 +0000
Subject: [PATCH 77/82] fix: a 3Bot or ERC20 transaction that is submitted is
 not reported as failed

---
 tfchain/TFChainWallet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 5c7528c..6e60257 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1466,13 +1466,14 @@ class TFChainThreeBot():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # (look up our addresses first, such that nothing can fail once the transaction is submitted)
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -1697,13 +1698,14 @@ class TFChainERC20():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # (look up our addresses first, such that nothing can fail once the transaction is submitted)
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
-- 
2.43.0


From 9a2dac35ba3d83a40b967e9a4a03c43e84dd2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:20 +0000
Subject: [PATCH 78/82] fix: coins are not sent to an address which is not that
 of a personal wallet

---
 tfchain/TFChainWallet.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 6e60257..e2536e4 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -25,6 +25,18 @@ _DEFAULT_KEY_SCAN_COUNT = 3
 
 _MAX_RIVINE_TRANSACTION_INPUTS = 99
 
+def _recipient_condition(recipient, lock=None):
+    """
+    Define the condition for somebody that has to receive coins,
+    refusing an address nobody can spend from when it is all that is known of a wallet
+    (e.g. that of a MultiSig wallet, which has to be defined by its owners instead).
+    """
+    condition = ConditionTypes.from_recipient(recipient, lock=lock)
+    inner = condition.unwrap()
+    if isinstance(inner, ConditionUnlockHash) and inner.unlockhash.type != UnlockHashType.PUBLIC_KEY:
+        raise ValueError("coins cannot be sent to {}, it is not the address of a personal wallet".format(inner.unlockhash))
+    return condition
+
 class TFChainWallet:
     """
     Tfchain Wallet object
@@ -344,7 +356,7 @@ class TFChainWallet:
             raise ValueError("no amount is defined to be sent")
 
         # define recipient
-        recipient = ConditionTypes.from_recipient(recipient, lock=lock)
+        recipient = _recipient_condition(recipient, lock=lock)
 
         # fund amount
         balance = self.balance
@@ -359,7 +371,7 @@ class TFChainWallet:
                 refund = suggested_refund
         else:
             # use the given refund condition (defined as a recipient)
-            refund = ConditionTypes.from_recipient(refund)
+            refund = _recipient_condition(refund)
 
         # create transaction
         txn = tftransactions.new()
@@ -731,7 +743,7 @@ class TFChainMinter():
             raise ValueError("no amount is defined to be sent")
 
         # define recipient
-        recipient = ConditionTypes.from_recipient(recipient, lock=lock)
+        recipient = _recipient_condition(recipient, lock=lock)
         # and add it is the output
         txn.coin_output_add(value=amount, condition=recipient)
 
@@ -1106,7 +1118,7 @@ class TFChainAtomicSwap():
 
         # define the refund
         if refund is not None:
-            refund = ConditionTypes.from_recipient(refund)
+            refund = _recipient_condition(refund)
         elif suggested_refund is not None:
             refund = ConditionTypes.from_recipient(suggested_refund)
         else:
@@ -1436,7 +1448,7 @@ class TFChainThreeBot():
                     refund = suggested_refund
             else:
                 # use the given refund condition (defined as a recipient)
-                refund = ConditionTypes.from_recipient(refund)
+                refund = _recipient_condition(refund)
             txn.refund_coin_output_set(value=remainder, condition=refund)
         # add the miner fee
         txn.transaction_fee = miner_fee
@@ -1667,7 +1679,7 @@ class TFChainERC20():
                     refund = suggested_refund
             else:
                 # use the given refund condition (defined as a recipient)
-                refund = ConditionTypes.from_recipient(refund)
+                refund = _recipient_condition(refund)
             txn.refund_coin_output_set(value=remainder, condition=refund)
 
         # add the miner fee
@@ -2108,7 +2120,7 @@ class WalletBalance(object):
         @param lock: optional lock that can be attached to the sent coin outputs
         """
         # define recipient
-        recipient = ConditionTypes.from_recipient(recipient, lock=lock)
+        recipient = _recipient_condition(recipient, lock=lock)
 
         # validate miner fee
         if not isinstance(miner_fee, Currency):
@@ -2512,7 +2524,7 @@ class CoinTransactionBuilder():
         amount = Currency(value=amount)
         if amount <= 0:
             raise ValueError("no amount is defined to be sent")
-        recipient = ConditionTypes.from_recipient(recipient, lock=lock)
+        recipient = _recipient_condition(recipient, lock=lock)
         self._txn.coin_output_add(value=amount, condition=recipient)
         return self
 
@@ -2536,7 +2548,7 @@ class CoinTransactionBuilder():
                 refund = suggested_refund
         else:
             # use the given refund condition (defined as a recipient)
-            refund = ConditionTypes.from_recipient(refund)
+            refund = _recipient_condition(refund)
 
         # add refund coin output if needed
         if remainder > 0:
-- 
2.43.0


From b09604d711e381c7bd993b014a8ed9624d95c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:14 +0000
Subject: [PATCH 79/82] fix: a transaction that does not spend the asked output
 is not reported as spending it

---
 tfchain/TFChainClient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index b449ff0..29f13b0 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -377,6 +377,11 @@ class TFChainClient:
                     spend_txn = txn
             if output is None:
                 raise tfchain.errors.ExplorerInvalidResponse("expected output {} to be part of creation Tx, but it wasn't".format(id), endpoint, resp)
+            # ensure the other transaction, if there is one, is the one that spends it
+            if spend_txn is not None:
+                inputs = spend_txn.coin_inputs if hash_type == 'coinoutputid' else spend_txn.blockstake_inputs
+                if id not in [str(ci.parentid) for ci in inputs]:
+                    raise tfchain.errors.ExplorerInvalidResponse("expected output {} to be spent by Tx {}, but it wasn't".format(id, spend_txn.id), endpoint, resp)
             # return the output and related transaction(s)
             return (output, creation_txn, spend_txn)
         except KeyError as exc:
-- 
2.43.0


From e296b574ecec7410c0ef656f4eeffa8fe2bbf787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:34 +0000
Subject: [PATCH 80/82] fix: a refused signature leaves the fulfillment as it
 was

---
 tfchain/types/FulfillmentTypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 076d380..d2a414a 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -286,6 +286,8 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         """
         Implements SignatureCallbackBase.
         """
+        # refuse an invalid pair prior to changing anything
+        PublicKeySignaturePair(public_key=public_key, signature=signature)
         self.public_key = public_key
         self.signature = signature
     
@@ -534,6 +536,8 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
         """
         Implements SignatureCallbackBase.
         """
+        # refuse an invalid pair prior to changing anything
+        PublicKeySignaturePair(public_key=public_key, signature=signature)
         self.public_key = public_key
         self.signature = signature
 
-- 
2.43.0


From ee4182edeedaf391a3931656a14edb89f1b310ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:22 +0000
Subject: [PATCH 81/82] fix: verify the refund time of a swap contract at one
 moment, also when a block arrives meanwhile

---
 tfchain/TFChainWallet.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index e2536e4..b186c3f 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -977,7 +977,6 @@ class TFChainAtomicSwap():
             elif not isinstance(min_refund_time, int):
                 raise TypeError("expected minimum refund time to be an integer or string, not to be of type {}".format(type(min_refund_time)))
             min_duration = max(0, min_refund_time-chain_time)
-            chain_time = self._chain_time
             if chain_time >= contract.refund_timestamp:
                 contract_duration = 0
             else:
-- 
2.43.0


From 651ca5e218263c84118e6291c15563612f1c969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:22 +0000
Subject: [PATCH 82/82] fix: a multi-signature wallet first seen through an
 added output knows the block of the balance, so its locks are respected

---
 tfchain/TFChainWallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index b186c3f..63f00a4 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2282,6 +2282,9 @@ class WalletsBalance(WalletBalance):
             self._wallets[address] = MultiSigWalletBalance(
                 owners=oc.unlockhashes,
                 signature_count=oc.required_signatures)
+            # whether its outputs are locked is judged as of the same block
+            wallet = self._wallets[address]
+            wallet.chain_height, wallet.chain_time, wallet.chain_blockid = self.chain_height, self.chain_time, self.chain_blockid
         self._wallets[address].output_add(output, confirmed=confirmed, spent=spent)
 
     def output_add(self, output, confirmed=True, spent=False):
-- 
2.43.0

