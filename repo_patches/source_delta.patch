From ae1ce5ec97b85c126651df4a0feed881fb46674a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 01/33] fix: decode OCR code segments from bytes so that OCR
 receipts can be parsed on Python 3

---
 librksv/receipt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 0d81c14..15a47c9 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -552,7 +552,7 @@ class Receipt(object):
 
         encTurnoverCounter = None
         try:
-            encTurnoverCounter = utils.b32decode(segments[10])
+            encTurnoverCounter = utils.b32decode(segments[10].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Encrypted turnover counter \"{}\" not Base 32 encoded.'
@@ -560,7 +560,7 @@ class Receipt(object):
 
         previousChain = None
         try:
-            previousChain = utils.b32decode(segments[12])
+            previousChain = utils.b32decode(segments[12].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Chaining value \"{}\" not Base 32 encoded.'
@@ -568,7 +568,7 @@ class Receipt(object):
 
         signature = None
         try:
-            signature = utils.b32decode(segments[13])
+            signature = utils.b32decode(segments[13].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Signature \"{}\" not Base 32 encoded.'
-- 
2.43.0


From 6a8fe9d230e7bc9dfd491560c10b9bd4350e641a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 02/33] fix: make InvalidKeyException picklable so that it does
 not hang a worker pool

---
 librksv/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index 1fbde92..9efec82 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -68,6 +68,7 @@ class InvalidKeyException(RKSVException):
 
     def __init__(self):
         super(InvalidKeyException, self).__init__(_("Invalid key."))
+        self._initargs = ()
 
 def depParserChunkSize():
     """
-- 
2.43.0


From 683e01256a2faa6b1309eab1e116d004a7b72952 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 03/33] fix: give every work package its own used receipt ID
 set

---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index ad32b45..91cd5a9 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -582,7 +582,7 @@ def prepareVerificationTuples(chunksWithVerifiers, key, prevStartJWS,
     del pkgRStates[-1]
 
     return zip(chunksWithVerifiers, [key] * npkgs, [prevStartJWS] * npkgs,
-            pkgRStates, [usedRecIdsBackend()] * npkgs)
+            pkgRStates, [ usedRecIdsBackend() for _pkg in chunksWithVerifiers ])
 
 def verifyParsedDEP(parser, keyStore, key, state = None,
         cashRegisterIdx = None, pool = None, nprocs = 1,
-- 
2.43.0


From 6a3ced90cb1e807ed83e447dfed8341f1c579e09 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 04/33] fix: do not treat an empty Signaturzertifikat as
 missing when parsing a DEP from a stream

---
 librksv/depparser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index d76bea3..964d7e9 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -165,6 +165,7 @@ class DEPStateWithIncompleteData(DEPStateWithData):
     class WIPData(object):
         def __init__(self):
             self.cert = None
+            self.cert_read = False
             self.cert_chain = None
             self.recs = list()
 
@@ -177,12 +178,15 @@ class DEPStateWithIncompleteData(DEPStateWithData):
         self.idx = idx
 
     def needCrt(self):
-        if self.wip.cert is None or self.wip.cert_chain is None:
+        # An empty Signaturzertifikat is read as None, so we can't use the
+        # certificate itself to determine if it was already encountered.
+        if not self.wip.cert_read or self.wip.cert_chain is None:
             return self.idx
         return None
 
     def setCrt(self, cert, cert_chain):
         self.wip.cert = cert
+        self.wip.cert_read = True
         self.wip.cert_chain = cert_chain
 
     def mergeIntoChunk(self):
@@ -283,6 +287,7 @@ class DEPStateGroup(DEPStateWithIncompleteData):
                         _('not a string'), self.idx)
             self.cert_seen = True
             self.wip.cert = parseDEPCert(value) if value != '' else None
+            self.wip.cert_read = True
 
         elif prefix == 'Belege-Gruppe.item.Zertifizierungsstellen':
             if self.cert_list_seen:
-- 
2.43.0


From 6f04e3cd8b32629ceb14bffe2c9947c51aaa7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 05/33] fix: do not merge DEP groups with different certificate
 chains

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index 063f3c3..c2e4729 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -100,7 +100,7 @@ class MergingDEPStream(DEPStream):
                 except StopIteration:
                     # no more receipts, fetch next group, see if it continues
                     rec_tuples, cert, cert_list = next(self._outer._backing)
-                    if self.cert == cert and cert_list == cert_list:
+                    if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
                         self.extend(rec_tuples)
                         continue
-- 
2.43.0


From 9d294f632939da5532f21dba09cde125483fe3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 06/33] fix: check the initial receipt's ID against the IDs
 already in use

---
 librksv/verify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index 91cd5a9..3c89c08 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -396,8 +396,9 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
 
             cashRegisterState.startReceiptJWS = r
 
+        usedReceiptIds.check(ro.receiptId)
+
         if prevObj:
-            usedReceiptIds.check(ro.receiptId)
             if prevObj.registerId != ro.registerId:
                 raise ChangingRegisterIdException(ro.receiptId)
             if (prevObj.zda == 'AT0' and ro.zda != 'AT0') or (
-- 
2.43.0


From f8a86a46f39f3cd39fb99dd9e5769bed4db1f307 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 07/33] fix: only record a start receipt if the register has no
 last receipt

---
 librksv/verification_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7fb81ea..faadf9f 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -386,7 +386,9 @@ class CashRegisterState(object):
         else:
             self.needRestoreReceipt = False
 
-        if not self.startReceiptJWS:
+        # Same as in verifyGroup(), only the first receipt of a register is its
+        # start receipt.
+        if not self.lastReceiptJWS:
             self.startReceiptJWS = depparser.expandDEPReceipt(group[0])
 
         self.lastReceiptJWS = depparser.expandDEPReceipt(group[-1])
-- 
2.43.0


From 17ac4618c79def4cb734f17bd4b87da419fa411a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 08/33] fix: make the scripts start on Python 3.11 and later
 where gettext.install() lost its third argument

---
 cert_extract.py       | 6 +++++-
 convert.py            | 6 +++++-
 demo.py               | 6 +++++-
 img_decode.py         | 6 +++++-
 key_store.py          | 6 +++++-
 merge.py              | 6 +++++-
 receipt.py            | 6 +++++-
 receipt_host.py       | 6 +++++-
 rktool.py             | 6 +++++-
 split.py              | 6 +++++-
 verification_state.py | 6 +++++-
 verify.py             | 6 +++++-
 verify_receipt.py     | 6 +++++-
 13 files changed, 65 insertions(+), 13 deletions(-)

diff --git a/cert_extract.py b/cert_extract.py
index cc71ad6..17578ea 100755
--- a/cert_extract.py
+++ b/cert_extract.py
@@ -21,7 +21,11 @@ from builtins import int
 from builtins import range
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 import os
 import sys
diff --git a/convert.py b/convert.py
index 81263d8..3e2c5d4 100755
--- a/convert.py
+++ b/convert.py
@@ -22,7 +22,11 @@ from builtins import int
 from builtins import range
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 import sys
 
diff --git a/demo.py b/demo.py
index d56d710..b05266c 100755
--- a/demo.py
+++ b/demo.py
@@ -22,7 +22,11 @@ from builtins import int
 from builtins import range
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 import datetime
 import random
diff --git a/img_decode.py b/img_decode.py
index 8662b35..64f674a 100755
--- a/img_decode.py
+++ b/img_decode.py
@@ -71,7 +71,11 @@ except ImportError:
 
 if __name__ == "__main__":
     import gettext
-    gettext.install('rktool', './lang', True)
+    try:
+        gettext.install('rktool', './lang', True)
+    except TypeError:
+        # Python >= 3.11 always installs the unicode version
+        gettext.install('rktool', './lang')
 
     import sys
     from PIL import Image
diff --git a/key_store.py b/key_store.py
index 5ad9762..5f578f1 100755
--- a/key_store.py
+++ b/key_store.py
@@ -25,7 +25,11 @@ import json
 import sys
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 from librksv import utils
 from librksv.key_store import KeyStore
diff --git a/merge.py b/merge.py
index 80e6ff4..8b1370a 100755
--- a/merge.py
+++ b/merge.py
@@ -23,7 +23,11 @@ from builtins import int
 import sys
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 from librksv import depexport
 from librksv import depparser
diff --git a/receipt.py b/receipt.py
index ada49d9..47fc364 100755
--- a/receipt.py
+++ b/receipt.py
@@ -22,7 +22,11 @@ from builtins import int
 import sys
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 from librksv.receipt import Receipt
 from librksv.url_receipt_helpers import getBasicCodeFromURL
diff --git a/receipt_host.py b/receipt_host.py
index 6e4077c..547b3b2 100755
--- a/receipt_host.py
+++ b/receipt_host.py
@@ -25,7 +25,11 @@ import sys
 from flask import Flask, abort, jsonify, make_response
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 from librksv import depparser
 from librksv import receipt
diff --git a/rktool.py b/rktool.py
index 6fa1884..1f3e57a 100755
--- a/rktool.py
+++ b/rktool.py
@@ -1041,7 +1041,11 @@ class RKToolApp(App):
 
 if __name__ == '__main__':
     import gettext
-    gettext.install('rktool', './lang', True)
+    try:
+        gettext.install('rktool', './lang', True)
+    except TypeError:
+        # Python >= 3.11 always installs the unicode version
+        gettext.install('rktool', './lang')
 
     if platform != 'android':
         from kivy.config import Config
diff --git a/split.py b/split.py
index 40174d7..9cfae57 100755
--- a/split.py
+++ b/split.py
@@ -23,7 +23,11 @@ import os
 import sys
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 from librksv import depexport
 from librksv import depparser
diff --git a/verification_state.py b/verification_state.py
index edd509f..7d963ed 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -27,7 +27,11 @@ import json
 import sys
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 from librksv import depparser
 from librksv import utils
diff --git a/verify.py b/verify.py
index dbf7ae4..2883b5d 100755
--- a/verify.py
+++ b/verify.py
@@ -25,7 +25,11 @@ import json
 import sys
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 from librksv import depparser
 from librksv import key_store
diff --git a/verify_receipt.py b/verify_receipt.py
index 03bdd76..ce3dc99 100755
--- a/verify_receipt.py
+++ b/verify_receipt.py
@@ -25,7 +25,11 @@ import sys
 from six import string_types
 
 import gettext
-gettext.install('rktool', './lang', True)
+try:
+    gettext.install('rktool', './lang', True)
+except TypeError:
+    # Python >= 3.11 always installs the unicode version
+    gettext.install('rktool', './lang')
 
 from librksv import key_store
 from librksv import receipt
-- 
2.43.0


From 54c565930aa845b7caf55bb75e02368a99aea20a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 09/33] fix: import getBasicCodeFromURL in
 verification_state.py

---
 verification_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verification_state.py b/verification_state.py
index 7d963ed..06d76e6 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -36,6 +36,7 @@ except TypeError:
 from librksv import depparser
 from librksv import utils
 from librksv.receipt import Receipt
+from librksv.url_receipt_helpers import getBasicCodeFromURL
 from librksv.verification_state import (CashRegisterState, ClusterState,
         DEFAULT_USED_RECEIPT_IDS_BACKEND)
 
-- 
2.43.0


From 3a6707262a4b699da54d34ccb5359c14eecca380 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 10/33] fix: sum up receipt turnovers exactly instead of with
 floats

---
 librksv/receipt.py            | 10 ++++++++++
 librksv/verification_state.py |  6 ++----
 librksv/verify.py             |  4 ++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 15a47c9..8b33617 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -725,6 +725,16 @@ class Receipt(object):
         """
         return self.sumA == 0.0 and self.sumB == 0.0 and self.sumC == 0.0 and self.sumD == 0.0 and self.sumE == 0.0
 
+    def turnoverInCents(self):
+        """
+        Calculates the turnover of this receipt from the string
+        representations of its sums. Unlike the float values, these are exact
+        regardless of their magnitude.
+        :return: The turnover in cents as int.
+        """
+        return sum(int(s.replace(',', '')) for s in (self.sumAStr,
+            self.sumBStr, self.sumCStr, self.sumDStr, self.sumEStr))
+
     def decryptTurnoverCounter(self, key, algorithm):
         """
         Decrypts the encrypted turnover counter using the given key and
diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index faadf9f..96feede 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -410,8 +410,7 @@ class CashRegisterState(object):
                 reversals.insert(0, ro)
 
         for ro in reversals:
-            self.lastTurnoverCounter += int(round(
-                (ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))
+            self.lastTurnoverCounter += ro.turnoverInCents()
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
@@ -450,8 +449,7 @@ class ClusterState(object):
         dummyLastTC = 0
         if key and not rec.isDummy() and not rec.isReversal():
             curTC = rec.decryptTurnoverCounter(key, algorithm)
-            dummyLastTC = curTC - int(round((rec.sumA + rec.sumB + rec.sumC
-                + rec.sumD + rec.sumE) * 100))
+            dummyLastTC = curTC - rec.turnoverInCents()
 
         dummyChain = base64.b64encode("DUMMY000".encode('utf-8'))
         dummyRec = receipt.Receipt(rec.zda, rec.registerId, "dummyrec",
diff --git a/librksv/verify.py b/librksv/verify.py
index 3c89c08..014b259 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -430,8 +430,8 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
         if not ro.isDummy():
             if key is not None:
                 utils.raiseForKey(key, algorithm)
-                newC = cashRegisterState.lastTurnoverCounter + int(round(
-                    (ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))
+                newC = (cashRegisterState.lastTurnoverCounter
+                        + ro.turnoverInCents())
                 if not ro.isReversal():
                     turnoverCounter = ro.decryptTurnoverCounter(key, algorithm)
                     if turnoverCounter != newC:
-- 
2.43.0


From 490024721549c9679e8e10627fffd914f3d04c5a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 11/33] fix: do not accept trailing newlines and non-ASCII
 digits in receipt fields

---
 librksv/receipt.py | 4 ++--
 librksv/utils.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 8b33617..f24f3f1 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -159,8 +159,8 @@ class CertSerialType(enum.Enum):
                 except ValueError as f:
                     return CertSerialType.INVALID
 
-algRegex = re.compile(r'^R[1-9]\d*$')
-zdaRegex = re.compile(r'^([A-Z][A-Z][1-9]\d*|AT0)$')
+algRegex = re.compile(r'^R[1-9][0-9]*\Z')
+zdaRegex = re.compile(r'^([A-Z][A-Z][1-9][0-9]*|AT0)\Z')
 
 def _getSum(s, receiptId, reason):
     if not isinstance(s, string_types) or not s:
diff --git a/librksv/utils.py b/librksv/utils.py
index 9efec82..bcc1598 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -253,19 +253,19 @@ def restoreb64padding(data):
     return data
 
 
-urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}$')
+urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}\Z')
 def urlsafe_b64decode(data):
     if not urlsafe_b64Regex.match(data.decode('utf-8')):
         raise TypeError
     return base64.urlsafe_b64decode(data)
 
-b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}$')
+b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}\Z')
 def b64decode(data):
     if not b64Regex.match(data.decode('utf-8')):
         raise TypeError
     return base64.b64decode(data)
 
-b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}$')
+b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}\Z')
 def b32decode(data):
     if not b32Regex.match(data.decode('utf-8')):
         raise TypeError
@@ -328,7 +328,7 @@ def makeSignedCert(cpub, ccn, cvdays, cserial, spriv, scert=None):
     return builder.sign(private_key=spriv, algorithm=hashes.SHA256(),
             backend=default_backend())
 
-receiptFloatRegex = re.compile(r'^-?([1-9]\d+|\d)\,\d\d$')
+receiptFloatRegex = re.compile(r'^-?([1-9][0-9]+|[0-9])\,[0-9][0-9]\Z')
 def getReceiptFloat(fstr):
     if receiptFloatRegex.match(fstr) is None:
         return None
-- 
2.43.0


From 12f5c6637a128b5e1916bce5f9f95c16a9a1d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 12/33] fix: do not advance the cash register if creating a
 receipt fails

---
 librksv/cashreg.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/librksv/cashreg.py b/librksv/cashreg.py
index df6b3b2..d55fb73 100644
--- a/librksv/cashreg.py
+++ b/librksv/cashreg.py
@@ -140,29 +140,30 @@ class CashRegister(CashRegisterI):
                 sumEStr, '', sigSystem.serial, '')
         rec = MangledReceipt(regularRec, override)
 
-        if 'turnoverCounterSize' in override:
-            self.turnoverCounterSize = override['turnoverCounterSize']
+        # Only update the register once the receipt has been created.
+        turnoverCounter = self.turnoverCounter
+        turnoverCounterSize = override.get('turnoverCounterSize',
+                self.turnoverCounterSize)
 
         encTurnoverCounter = None
         if dummy:
             encTurnoverCounter = b'TRA'
 
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
         else:
             # TODO: check if counter can still be represented with
             # given size
-            self.turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
+            turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
 
             if reversal:
                 encTurnoverCounter = b'STO'
             else:
                 utils.raiseForKey(self.key, algorithm)
                 encTurnoverCounter = algorithm.encryptTurnoverCounter(rec,
-                        self.turnoverCounter, self.key,
-                        self.turnoverCounterSize)
+                        turnoverCounter, self.key, turnoverCounterSize)
         encTurnoverCounter = base64.b64encode(encTurnoverCounter)
         encTurnoverCounter = encTurnoverCounter.decode("utf-8")
         if 'encTurnoverCounter' not in override:
@@ -175,14 +176,17 @@ class CashRegister(CashRegisterI):
         prefix = override.get('algorithmPrefix', prefix)
         jwsString = sigSystem.sign(rec.toPayloadString(prefix),
                 algorithm)
-        self.lastReceiptSig = jwsString
-        
+
         header, payload, signature = jwsString.split('.')
         header = base64.urlsafe_b64decode(
                 utils.restoreb64padding(header).encode('utf-8')
                 ).decode('utf-8')
         rec.sign(header, signature)
 
+        self.turnoverCounter = turnoverCounter
+        self.turnoverCounterSize = turnoverCounterSize
+        self.lastReceiptSig = jwsString
+
         if 'header' in override:
             rec.header = override['header']
         if 'signature' in override:
-- 
2.43.0


From fe8b9cbb6667a9bc469b9bcd14a6005b361d0c85 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 13/33] fix: report malformed DEP elements as DEPParseException

---
 librksv/depparser.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 964d7e9..8190e8b 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -346,7 +346,7 @@ def shrinkDEPReceipt(rec, idx = None):
     """
     try:
         return rec.encode('utf-8')
-    except TypeError:
+    except (AttributeError, TypeError):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
@@ -543,10 +543,19 @@ class FileDEPParser(IncrementalDEPParser):
         return items
 
     def _needCerts(self, state, chunksize, groupidx):
-        cert_str = self.__getItems(
-                'Belege-Gruppe.item.Signaturzertifikat', chunksize)[groupidx]
-        cert_str_list = self.__getItems(
-                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)[groupidx]
+        cert_strs = self.__getItems(
+                'Belege-Gruppe.item.Signaturzertifikat', chunksize)
+        if groupidx >= len(cert_strs):
+            raise MissingDEPElementException('Signaturzertifikat', groupidx)
+        cert_str = cert_strs[groupidx]
+        cert_str_lists = self.__getItems(
+                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)
+        if groupidx >= len(cert_str_lists):
+            raise MissingDEPElementException('Zertifizierungsstellen', groupidx)
+        cert_str_list = cert_str_lists[groupidx]
+        if not isinstance(cert_str_list, list):
+            raise MalformedDEPElementException('Zertifizierungsstellen',
+                    _('not a list'), groupidx)
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
         state.setCrt(cert, cert_list)
@@ -607,7 +616,7 @@ class DictDEPParser(DEPParserI):
 
         cert_str = group['Signaturzertifikat']
         cert_str_list = group['Zertifizierungsstellen']
-        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
+        recs = group['Belege-kompakt']
 
         if not isinstance(cert_str, string_types):
             raise MalformedDEPElementException('Signaturzertifikat',
@@ -615,12 +624,11 @@ class DictDEPParser(DEPParserI):
         if not isinstance(cert_str_list, list):
             raise MalformedDEPElementException('Zertifizierungsstellen',
                     _('not a list'), idx)
-        try:
-            iter(receipts)
-        except TypeError:
+        if not isinstance(recs, list):
             raise MalformedDEPElementException('Belege-kompakt',
                     _('not a list'), idx)
 
+        receipts = (shrinkDEPReceipt(r) for r in recs)
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
 
-- 
2.43.0


From 45e835b791931024a7e74573a221d74c537021cc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 14/33] fix: report a signature as invalid if the public key
 has the wrong type

---
 librksv/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/algorithms.py b/librksv/algorithms.py
index c0b9d1d..97a6bce 100644
--- a/librksv/algorithms.py
+++ b/librksv/algorithms.py
@@ -189,7 +189,8 @@ class R1(AlgorithmI):
         payload = None
         try:
             payload = jwt.PyJWS().decode(jwsString, pubKey)
-        except jwt.exceptions.DecodeError as e:
+        except (jwt.exceptions.DecodeError, TypeError) as e:
+            # A TypeError indicates that the key is not usable for ES256.
             pass
 
         if payload:
-- 
2.43.0


From cf9f1f3ba3a2407ddee9fdded6a0ba44201b795a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 15/33] fix: reject a boolean turnover counter in a saved state

---
 librksv/verification_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 96feede..d55f983 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -342,7 +342,8 @@ class CashRegisterState(object):
                     _('not a string'), regidx)
 
         ret.lastTurnoverCounter = d['lastTurnoverCounter']
-        if not isinstance(ret.lastTurnoverCounter, int):
+        if not isinstance(ret.lastTurnoverCounter, int) or isinstance(
+                ret.lastTurnoverCounter, bool):
             raise MalformedStateElementException('lastTurnoverCounter',
                     _('not an integer'), regidx)
 
-- 
2.43.0


From 5c7f7ce706d830c75fd3ea6ef2cec159a89ff72f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 16/33] fix: report undecodable DEP text as DEPParseException
 in the incremental parsers

---
 librksv/depparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 8190e8b..c9b1d40 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -419,7 +419,10 @@ class IncrementalDEPParser(DEPParserI):
 
     def __init__(self, fd):
         # skipBOM checks if we can seek, so no harm in doing it to a non-file
-        self.startpos = utils.skipBOM(fd)
+        try:
+            self.startpos = utils.skipBOM(fd)
+        except UnicodeDecodeError as e:
+            raise DEPParseException(_('Malformed JSON: {}.').format(e))
         self.fd = fd
 
     @staticmethod
@@ -474,7 +477,7 @@ class IncrementalDEPParser(DEPParserI):
                 yield last
             elif not got_something:
                 raise MalformedDEPException(_('No receipts found'))
-        except ijson.JSONError as e:
+        except (ijson.JSONError, UnicodeDecodeError) as e:
             raise DEPParseException(_('Malformed JSON: {}.').format(e))
 
 
-- 
2.43.0


From e286a3c4f45a1a011022b15a4c1eac9243b019c9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 17/33] fix: report receipts that cannot be encoded as
 malformed DEP elements

---
 librksv/depparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index c9b1d40..eb5d397 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -346,7 +346,7 @@ def shrinkDEPReceipt(rec, idx = None):
     """
     try:
         return rec.encode('utf-8')
-    except (AttributeError, TypeError):
+    except (AttributeError, TypeError, UnicodeEncodeError):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
-- 
2.43.0


From 9e1ce40a1ed99d33bb6400614a4d198c534e0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:55:39 +0000
Subject: [PATCH 18/33] fix: look up late DEP group certificates by group, also
 if some group lacks or repeats them

---
 librksv/depparser.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index eb5d397..2a9e75d 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -537,7 +537,21 @@ class FileDEPParser(IncrementalDEPParser):
         # cache miss, gotta parse the JSON again
         ofs = self.fd.tell()
         self.fd.seek(self.startpos)
-        items = list(ijson.items(self.fd, prefix))
+        # Keep the items by group index, a group lacking the element must not
+        # get the one of another group.
+        items = dict()
+        idx = -1
+        for pref, event, value in ijson.parse(self.fd):
+            if pref == 'Belege-Gruppe.item' and event == 'start_map':
+                idx += 1
+                builder = ijson.ObjectBuilder()
+            elif pref == prefix or pref.startswith(prefix + '.'):
+                if pref == prefix and idx in items and event not in (
+                        'map_key', 'end_map', 'end_array'):
+                    raise DuplicateDEPElementException(
+                            prefix.split('.')[-1], idx)
+                builder.event(event, value)
+                items[idx] = builder.value
         self.fd.seek(ofs)
 
         if chunksize == 0 or len(items) <= chunksize:
@@ -548,12 +562,12 @@ class FileDEPParser(IncrementalDEPParser):
     def _needCerts(self, state, chunksize, groupidx):
         cert_strs = self.__getItems(
                 'Belege-Gruppe.item.Signaturzertifikat', chunksize)
-        if groupidx >= len(cert_strs):
+        if groupidx not in cert_strs:
             raise MissingDEPElementException('Signaturzertifikat', groupidx)
         cert_str = cert_strs[groupidx]
         cert_str_lists = self.__getItems(
                 'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)
-        if groupidx >= len(cert_str_lists):
+        if groupidx not in cert_str_lists:
             raise MissingDEPElementException('Zertifizierungsstellen', groupidx)
         cert_str_list = cert_str_lists[groupidx]
         if not isinstance(cert_str_list, list):
-- 
2.43.0


From 722c5fd8adffa31d00ad6b962cc00bd49a9d0444 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:32:32 +0000
Subject: [PATCH 19/33] fix: do not accept serials and key IDs with signs,
 prefixes, spaces or non-ASCII characters

---
 librksv/receipt.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index f24f3f1..dd21c5f 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -110,6 +110,12 @@ class InvalidCertificateProviderException(ReceiptException):
         super(InvalidCertificateProviderException, self).__init__(rec, _("Invalid certificate provider."))
         self._initargs = (rec,)
 
+serialRegex = re.compile(r'^[0-9a-fA-F]+\Z')
+taxRegex = re.compile(r'^S:[0-9]{9}\Z')
+uidRegex = re.compile(r'^U:[0-9A-Z]{1,14}\Z')
+glnRegex = re.compile(r'^G:[0-9]{13}\Z')
+keyIdSuffixRegex = re.compile(r'^[0-9a-zA-Z]+\Z')
+
 class CertSerialType(enum.Enum):
     """
     An enum for all the different types of certificate serials
@@ -139,25 +145,20 @@ class CertSerialType(enum.Enum):
         if len(parts) > 2:
             return CertSerialType.INVALID
         elif len(parts) == 2:
-            if not parts[1].isalnum():
+            if keyIdSuffixRegex.match(parts[1]) is None:
                 return CertSerialType.INVALID
 
-        if len(certSerial) == 11 and certSerial[0:2] == 'S:' and certSerial[2:].isdigit():
+        if taxRegex.match(certSerial) is not None:
             return CertSerialType.TAX
-        elif len(certSerial) >= 3 and len(certSerial) <= 16 and certSerial[0:2] == 'U:'  and certSerial[2:].isalnum() and certSerial[2:] == certSerial[2:].upper():
+        elif uidRegex.match(certSerial) is not None:
             return CertSerialType.UID
-        elif len(certSerial) == 15 and certSerial[0:2] == 'G:' and certSerial[2:].isdigit():
+        elif glnRegex.match(certSerial) is not None:
             return CertSerialType.GLN
         else:
-            try:
-                int(certSerial, 16)
-                return CertSerialType.SERIAL
-            except ValueError as e:
-                try:
-                    int(certSerial, 10)
-                    return CertSerialType.SERIAL
-                except ValueError as f:
-                    return CertSerialType.INVALID
+            # covers decimal serials as well
+            if serialRegex.match(certSerial) is None:
+                return CertSerialType.INVALID
+            return CertSerialType.SERIAL
 
 algRegex = re.compile(r'^R[1-9][0-9]*\Z')
 zdaRegex = re.compile(r'^([A-Z][A-Z][1-9][0-9]*|AT0)\Z')
-- 
2.43.0


From 1b42b68d929e51b6b4c7bca0d61b576b5df1b19a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:33:10 +0000
Subject: [PATCH 20/33] fix: do not accept time stamps that deviate from the
 prescribed format

---
 librksv/receipt.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index dd21c5f..5a63335 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -171,9 +171,15 @@ def _getSum(s, receiptId, reason):
         raise MalformedReceiptException(receiptId, reason)
     return sF
 
+timestampRegex = re.compile(
+        r'^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}\Z')
+
 def _getTimestamp(dateTime, receiptId, reason):
     if not isinstance(dateTime, string_types) or not dateTime:
         raise MalformedReceiptException(receiptId, reason)
+    # strptime() is not as strict as we need
+    if timestampRegex.match(dateTime) is None:
+        raise MalformedReceiptException(receiptId, reason)
     try:
         dateTimeDT = datetime.datetime.strptime(dateTime, "%Y-%m-%dT%H:%M:%S")
     except ValueError:
-- 
2.43.0


From 52a3109623b5853883084a13ca2e8cc4bd46d89b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:33:41 +0000
Subject: [PATCH 21/33] fix: do not accept underscores as separators in CSV
 receipts

---
 librksv/receipt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 5a63335..aadd588 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -657,6 +657,10 @@ class Receipt(object):
             raise MalformedReceiptException(csv,
                     _('Invalid CSV.'))
 
+        # would be taken for the separator below
+        if '_' in csv:
+            raise MalformedReceiptException(csv, _('Invalid CSV.'))
+
         segs = [ s.strip() for s in csv.split(';') ]
         return Receipt.fromBasicCode('_' + ('_'.join(segs)))
 
-- 
2.43.0


From 6e97401145eebe538737892b391c719a251265c6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 22/33] fix: do not accept superfluous base64 padding in
 receipt fields

---
 librksv/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index bcc1598..142d7e0 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -259,7 +259,8 @@ def urlsafe_b64decode(data):
         raise TypeError
     return base64.urlsafe_b64decode(data)
 
-b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}\Z')
+b64Regex = re.compile(r'^([a-zA-Z0-9/+]{4})*'
+        r'([a-zA-Z0-9/+]{2}==|[a-zA-Z0-9/+]{3}=)?\Z')
 def b64decode(data):
     if not b64Regex.match(data.decode('utf-8')):
         raise TypeError
-- 
2.43.0


From 520f2a1d9a85b3831318633d2ac0e8235683d03f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 23/33] fix: accept AES key files that end with a newline again

---
 librksv/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 142d7e0..9606483 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -87,7 +87,8 @@ def raiseForKey(key, algorithm):
         raise InvalidKeyException()
 
 def loadB64Key(b64Key):
-    return b64decode(b64Key)
+    # key files may end with a newline
+    return b64decode(b64Key.rstrip())
 
 def loadKeyFromJson(json):
     """
-- 
2.43.0


From ee03b04a5dcc9e8d1f5050e036aec9579ae509ce Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 24/33] fix: do not accept base64 and base32 parts with
 non-zero unused bits

---
 librksv/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 9606483..bc23e14 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -253,25 +253,34 @@ def restoreb64padding(data):
         data += '=' * needed
     return data
 
+def raiseUnlessCanonical(decoded, encode, data):
+    # The unused bits of the last character have to be zero, otherwise
+    # different texts would decode to the same data.
+    if encode(decoded) != data:
+        raise TypeError
+    return decoded
 
 urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}\Z')
 def urlsafe_b64decode(data):
     if not urlsafe_b64Regex.match(data.decode('utf-8')):
         raise TypeError
-    return base64.urlsafe_b64decode(data)
+    return raiseUnlessCanonical(
+            base64.urlsafe_b64decode(data), base64.urlsafe_b64encode, data)
 
 b64Regex = re.compile(r'^([a-zA-Z0-9/+]{4})*'
         r'([a-zA-Z0-9/+]{2}==|[a-zA-Z0-9/+]{3}=)?\Z')
 def b64decode(data):
     if not b64Regex.match(data.decode('utf-8')):
         raise TypeError
-    return base64.b64decode(data)
+    return raiseUnlessCanonical(
+            base64.b64decode(data), base64.b64encode, data)
 
 b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}\Z')
 def b32decode(data):
     if not b32Regex.match(data.decode('utf-8')):
         raise TypeError
-    return base64.b32decode(data)
+    return raiseUnlessCanonical(
+            base64.b32decode(data), base64.b32encode, data)
 
 def makeES256Keypair():
     """
-- 
2.43.0


From 55a20b003f74f1d01c66722d3a6dc98376752098 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 25/33] fix: only accept a sign on serials and a suffix on key
 IDs

---
 librksv/receipt.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index aadd588..7b3469e 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -110,7 +110,8 @@ class InvalidCertificateProviderException(ReceiptException):
         super(InvalidCertificateProviderException, self).__init__(rec, _("Invalid certificate provider."))
         self._initargs = (rec,)
 
-serialRegex = re.compile(r'^[0-9a-fA-F]+\Z')
+# for some reason the ref impl has a negative serial on some certs
+serialRegex = re.compile(r'^-?[0-9a-fA-F]+\Z')
 taxRegex = re.compile(r'^S:[0-9]{9}\Z')
 uidRegex = re.compile(r'^U:[0-9A-Z]{1,14}\Z')
 glnRegex = re.compile(r'^G:[0-9]{13}\Z')
@@ -136,10 +137,11 @@ class CertSerialType(enum.Enum):
         if len(certSerial) <= 0:
             return CertSerialType.INVALID
 
-        # for some reason the ref impl has a negative serial on some certs
-        if certSerial[0] == '-' and '-' not in certSerial[1:]:
-            certSerial = certSerial[1:]
+        # covers decimal serials as well
+        if serialRegex.match(certSerial) is not None:
+            return CertSerialType.SERIAL
 
+        # only key IDs may have a suffix
         parts = certSerial.split('-')
         certSerial = parts[0]
         if len(parts) > 2:
@@ -155,10 +157,7 @@ class CertSerialType(enum.Enum):
         elif glnRegex.match(certSerial) is not None:
             return CertSerialType.GLN
         else:
-            # covers decimal serials as well
-            if serialRegex.match(certSerial) is None:
-                return CertSerialType.INVALID
-            return CertSerialType.SERIAL
+            return CertSerialType.INVALID
 
 algRegex = re.compile(r'^R[1-9][0-9]*\Z')
 zdaRegex = re.compile(r'^([A-Z][A-Z][1-9][0-9]*|AT0)\Z')
-- 
2.43.0


From 991bf2f7049d80c09e1210ffb429fa7d2decdd03 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:25:52 +0000
Subject: [PATCH 26/33] fix: export the receipts by default, not the addresses
 of generators

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index c2e4729..e676730 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -197,7 +197,7 @@ class DEPExporter(DEPExporterI):
     which can be used to create new lists from the generators (by passing list).
     """
 
-    def __init__(self, dep_stream, output_generator_wrapper=id):
+    def __init__(self, dep_stream, output_generator_wrapper=lambda g: g):
         self._stream = dep_stream
         self._wrapper = output_generator_wrapper
         self._extra = dict()
-- 
2.43.0


From ecee36fff98dbff3b5ce116556e30af33fcc0385 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:33:49 +0000
Subject: [PATCH 27/33] fix: do not take empty strings or numbers with
 separators or spaces for certificate serials

---
 librksv/key_store.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index f2c2742..9fcf290 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -28,10 +28,13 @@ from .gettext_helper import _
 from six import string_types
 
 import copy
+import re
 import warnings
 
 from . import utils
 
+SERIAL_REGEX = re.compile(r'^[0-9a-fA-F]+\Z')
+
 class KeyStoreException(utils.RKSVException):
     def __init__(self, message):
         super(KeyStoreException, self).__init__(message)
@@ -195,11 +198,15 @@ def strSerialToKeyIds(serial):
     empty if the serial is invalid.
     """
     # for some reason the ref impl has a negative serial on some certs
-    if serial[0] == '-':
+    if serial.startswith('-'):
         serial = serial[1:]
 
     validKeyIds = list()
 
+    # int() would also accept prefixes, signs, spaces and separators
+    if not SERIAL_REGEX.match(serial):
+        return validKeyIds
+
     try:
         validKeyIds.append('%x' % int(serial, 16))
     except ValueError as e:
-- 
2.43.0


From b8a536cb15b75d6404a6b424d58aa926645d4ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:34:30 +0000
Subject: [PATCH 28/33] fix: report public keys of unsupported kinds as
 unusable instead of letting foreign exceptions escape

---
 librksv/key_store.py      | 19 ++++++++++++++++---
 librksv/utils.py          | 31 +++++++++++++++++++++++++++----
 librksv/verify_receipt.py | 15 +++++++++++++--
 3 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index 9fcf290..911a84a 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -236,6 +236,19 @@ def parseKeyStoreCert(cert_str, kid):
     except ValueError:
         raise MalformedCertificateException(kid)
 
+def parseKeyStoreCertPubkey(cert, kid):
+    """
+    Gets the public key from a certificate in a key store.
+    :param cert: The cryptography certificate object.
+    :param kid: The key ID under which the cert is stored.
+    :return: A cryptography public key object.
+    :throws: MalformedCertificateException
+    """
+    try:
+        return utils.certPubKey(cert)
+    except ValueError:
+        raise MalformedCertificateException(kid)
+
 def parseKeyStorePubkey(pubkey_str, kid):
     """
     Turns a public key string as used in a key store into a public key object.
@@ -304,7 +317,7 @@ class KeyStore(KeyStoreI):
 
     def putPEMCert(self, pemCert):
         cert = utils.loadCert(pemCert)
-        pubKey = cert.public_key()
+        pubKey = utils.certPubKey(cert)
         serial = numSerialToKeyId(cert.serial_number)
 
         self.keydict[serial] = KeyTuple(serial, pubKey, cert)
@@ -365,7 +378,7 @@ class KeyStore(KeyStoreI):
                 keyId = keyId.replace('u;', 'U:')
                 keyId = keyId.replace('g;', 'G:')
                 cert = parseKeyStoreCert(certStr, keyId)
-                key = cert.public_key()
+                key = parseKeyStoreCertPubkey(cert, keyId)
                 keyStore.putKey(keyId, key, cert)
         if config.has_section('public_keys'):
             for keyId, keyStr in config.items('public_keys'):
@@ -468,7 +481,7 @@ class KeyStore(KeyStoreI):
                             _('invalid certificate ID \"{}\"').format(rawId), rawId)
                 keyId = certIds[0]
                 cert = parseKeyStoreCert(cpStr, keyId)
-                key = cert.public_key()
+                key = parseKeyStoreCertPubkey(cert, keyId)
             elif devType == 'PUBLIC_KEY':
                 keyId = value['id']
                 key = parseKeyStorePubkey(cpStr, keyId)
diff --git a/librksv/utils.py b/librksv/utils.py
index bc23e14..56e85c3 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -41,7 +41,7 @@ from cryptography.hazmat.primitives.asymmetric import ec, rsa, padding
 from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
 from cryptography.hazmat.primitives.serialization import load_pem_private_key, load_pem_public_key, Encoding, PublicFormat
 from cryptography.hazmat.primitives import hashes
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.x509.oid import NameOID
 
 class RKSVException(Exception):
@@ -141,8 +141,24 @@ def loadPubKey(pem):
     Creates a cryptography public key object from the given PEM public key.
     :param pem: A public key as a PEM string.
     :return: A cryptography public key object.
+    :throws: ValueError if the key is malformed or of an unsupported kind.
     """
-    return load_pem_public_key(pem.encode("utf-8"), default_backend())
+    try:
+        return load_pem_public_key(pem.encode("utf-8"), default_backend())
+    except (UnsupportedAlgorithm, NotImplementedError) as e:
+        raise ValueError(str(e))
+
+def certPubKey(cert):
+    """
+    Gets the public key from a certificate.
+    :param cert: A cryptography certificate object.
+    :return: A cryptography public key object.
+    :throws: ValueError if the key is malformed or of an unsupported kind.
+    """
+    try:
+        return cert.public_key()
+    except (UnsupportedAlgorithm, NotImplementedError) as e:
+        raise ValueError(str(e))
 
 def loadPrivKey(pem):
     """
@@ -206,11 +222,18 @@ def verifyCert(cert, signCert):
     :return: True if the signature is a valid ECDSA signature, False otherwise.
     """
     # FIXME: This is very likely wrong and we should find a better way to verify certs.
-    halg = cert.signature_hash_algorithm
+    try:
+        halg = cert.signature_hash_algorithm
+        pubKey = certPubKey(signCert)
+    except (UnsupportedAlgorithm, ValueError):
+        return False
+    # Some signature types (e.g. EdDSA) do not use a separate hash.
+    if halg is None:
+        return False
+
     sig = cert.signature
     data = cert.tbs_certificate_bytes
 
-    pubKey = signCert.public_key()
     alg = None
     # We only support ECDSA and RSA+PKCS1
     if isinstance(pubKey, ec.EllipticCurvePublicKey):
diff --git a/librksv/verify_receipt.py b/librksv/verify_receipt.py
index bb6c203..79f943d 100644
--- a/librksv/verify_receipt.py
+++ b/librksv/verify_receipt.py
@@ -218,6 +218,17 @@ class ReceiptVerifier(ReceiptVerifierI):
         """
         return ReceiptVerifier(keyStore, None)
 
+    def getCertPubKey(self):
+        """
+        Gets the public key from the certificate.
+        :return: The public key or None if the certificate does not contain a
+        key of a supported kind.
+        """
+        try:
+            return utils.certPubKey(self.cert)
+        except ValueError:
+            return None
+
     def verify(self, rec, algorithmPrefix):
         if algorithmPrefix not in algorithms.ALGORITHMS:
             raise receipt.UnknownAlgorithmException(rec.receiptId)
@@ -226,7 +237,7 @@ class ReceiptVerifier(ReceiptVerifierI):
         pubKey = None
         if rec.zda == 'AT0':
             if self.cert:
-                pubKey = self.cert.public_key()
+                pubKey = self.getCertPubKey()
             else:
                 pubKey = self.keyStore.getKey(rec.certSerial)
         else:
@@ -235,7 +246,7 @@ class ReceiptVerifier(ReceiptVerifierI):
                 certSerial = key_store.numSerialToKeyId(self.cert.serial_number)
                 if not certSerial in serials:
                     raise CertSerialMismatchException(rec.receiptId)
-                pubKey = self.cert.public_key()
+                pubKey = self.getCertPubKey()
             else:
                 for serial in serials:
                     pubKey = self.keyStore.getKey(serial)
-- 
2.43.0


From e3da5bafff1cf5a3684de16554e7201cf6ac73db Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:35:28 +0000
Subject: [PATCH 29/33] fix: sort receipt IDs with unusual or very many digits
 without crashing

---
 librksv/verification_state.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index d55f983..29f037d 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -228,8 +228,15 @@ class UsedReceiptIdsSortedNatural(UsedReceiptIdsBackend):
     # https://blog.codinghorror.com/sorting-for-humans-natural-sort-order/
     @staticmethod
     def _key(recId):
-        convert = lambda text: int(text) if text.isdigit() else text.lower()
-        return [ convert(c) for c in _numSplitRegex.split(recId) ]
+        # Every other part is a number. int() would be limited in length.
+        parts = _numSplitRegex.split(recId)
+        for i, part in enumerate(parts):
+            if i % 2 == 1:
+                digits = part.lstrip('0')
+                parts[i] = (len(digits), digits)
+            else:
+                parts[i] = part.lower()
+        return parts
 
     def __init__(self):
         self._minId = None
-- 
2.43.0


From ab492a53d07c0ada944a2a1d0e2d450031b684f2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:52:21 +0000
Subject: [PATCH 30/33] fix: treat an unusable reply of the remote signature
 service as a failure of the device

---
 librksv/sigsys.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/librksv/sigsys.py b/librksv/sigsys.py
index a2914f5..0c7b034 100644
--- a/librksv/sigsys.py
+++ b/librksv/sigsys.py
@@ -26,6 +26,8 @@ from .gettext_helper import _
 import base64
 import requests
 
+from . import utils
+
 class SignatureSystemI(object):
     """
     The base class for signature systems. It contains functions that every
@@ -160,7 +162,32 @@ class SignatureSystemATrustMobile(SignatureSystemI):
             r = requests.post(self.ATrustURL + SignEndpoint, json=rdata,
                     verify=self.certFile)
             r.raise_for_status()
-            return r.json()['result']
-        except requests.exceptions.RequestException as e:
+            jws = r.json()['result']
+            self.checkReply(jws, data, algorithm)
+            return jws
+        except (requests.exceptions.RequestException, ValueError, KeyError,
+                TypeError, AttributeError) as e:
+            # An unusable reply is a failure of the service, too.
             return SignatureSystemBroken(self.zda, self.serial).sign(data,
                     algorithm)
+
+    @staticmethod
+    def checkReply(jws, data, algorithm):
+        """
+        Checks that a reply of the service is a JWS of the given data.
+        :param jws: The reply.
+        :param data: The data that should have been signed as a string.
+        :param algorithm: The algorithm object used to perform the signature.
+        :throws: ValueError, TypeError or AttributeError if it is not.
+        """
+        header, payload, signature = jws.split('.')
+        for segment, expected in ((header, algorithm.jwsHeader()),
+                (payload, data)):
+            if segment != base64.urlsafe_b64encode(expected.encode("utf-8")
+                    ).replace(b'=', b'').decode('utf-8'):
+                raise ValueError(_("Invalid JWS."))
+
+        if not signature or '=' in signature:
+            raise ValueError(_("Invalid JWS."))
+        utils.urlsafe_b64decode(
+                utils.restoreb64padding(signature).encode('utf-8'))
-- 
2.43.0


From 013aa8bc622b7e8bfeb20b9660b99b2d79f4d77e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:10:26 +0000
Subject: [PATCH 31/33] fix: let the turnover counter add up to the sums stated
 on the receipts

---
 librksv/cashreg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/cashreg.py b/librksv/cashreg.py
index d55fb73..66fa429 100644
--- a/librksv/cashreg.py
+++ b/librksv/cashreg.py
@@ -154,7 +154,9 @@ class CashRegister(CashRegisterI):
         else:
             # TODO: check if counter can still be represented with
             # given size
-            turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
+            # The counter has to add up to what the receipts state.
+            turnoverCounter += sum(int(s.replace(',', '')) for s in
+                    (sumAStr, sumBStr, sumCStr, sumDStr, sumEStr))
             if 'turnoverCounter' in override:
                 turnoverCounter = int(override['turnoverCounter'])
 
-- 
2.43.0


From 6602bde5c1215bb62e5b1a0b6d752a019ede1a07 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 32/33] fix: let key stores with keys other than elliptic curve
 ones be given to other processes

---
 librksv/utils.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 56e85c3..1d90356 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -37,7 +37,7 @@ import uuid
 
 from cryptography import x509
 from cryptography.hazmat.backends import default_backend
-from cryptography.hazmat.primitives.asymmetric import ec, rsa, padding
+from cryptography.hazmat.primitives.asymmetric import dsa, ec, rsa, padding
 from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
 from cryptography.hazmat.primitives.serialization import load_pem_private_key, load_pem_public_key, Encoding, PublicFormat
 from cryptography.hazmat.primitives import hashes
@@ -452,4 +452,21 @@ def init_class_overrides():
     cert_class_override(init_cert.__class__)
     pubkey_class_override(init_cert.public_key().__class__)
 
+    # A key store can hold other keys too, e.g. those of CA certificates.
+    backend = default_backend()
+    pubkey_class_override(
+            rsa.RSAPublicNumbers(65537, 2**1023 + 1).public_key(backend).__class__)
+    pubkey_class_override(
+            dsa.DSAPublicNumbers(2, dsa.DSAParameterNumbers(
+                2**1023 + 1, 2**159 + 1, 2)).public_key(backend).__class__)
+    # Ed25519, X25519, Ed448 and X448
+    for oid, size in ((b'\x70', 32), (b'\x6e', 32), (b'\x71', 57), (b'\x6f', 56)):
+        der = (b'\x30' + six.int2byte(size + 10) + b'\x30\x05\x06\x03\x2b\x65'
+                + oid + b'\x03' + six.int2byte(size + 1) + b'\x00' + b'\x01' * size)
+        try:
+            key = loadPubKey(addPEMPubKeyHeaders(base64.b64encode(der).decode('utf-8')))
+        except ValueError:
+            continue # not supported by this version of cryptography
+        pubkey_class_override(key.__class__)
+
 init_class_overrides()
-- 
2.43.0


From d090fd6fe2e3fa9d8ed2b05eff99e867d32282c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:27:28 +0000
Subject: [PATCH 33/33] fix: read DEPs whose other members have empty or dotted
 names

---
 librksv/depparser.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 2a9e75d..53e1a98 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -227,9 +227,16 @@ class DEPStateRootMap(DEPStateWithData):
     def __init__(self, chunksize, upper):
         super(DEPStateRootMap, self).__init__(chunksize, upper)
         self.groups_seen = False
+        self.nested = 0
 
     def parse(self, prefix, event, value):
-        if prefix == '' and event == 'end_map':
+        # The value of an empty key has an empty prefix too.
+        if prefix == '' and event in ('start_map', 'start_array'):
+            self.nested += 1
+        elif prefix == '' and event in ('end_map', 'end_array') \
+                and self.nested > 0:
+            self.nested -= 1
+        elif prefix == '' and event == 'end_map':
             if not self.groups_seen:
                 raise MissingDEPElementException('Belege-Gruppe')
             return self.upper
@@ -539,19 +546,32 @@ class FileDEPParser(IncrementalDEPParser):
         self.fd.seek(self.startpos)
         # Keep the items by group index, a group lacking the element must not
         # get the one of another group.
+        # The prefixes are of no use here, keys may contain dots too.
+        elem = prefix.split('.')[-1]
         items = dict()
         idx = -1
+        depth = 0
+        rootkey = key = None
         for pref, event, value in ijson.parse(self.fd):
-            if pref == 'Belege-Gruppe.item' and event == 'start_map':
-                idx += 1
-                builder = ijson.ObjectBuilder()
-            elif pref == prefix or pref.startswith(prefix + '.'):
-                if pref == prefix and idx in items and event not in (
-                        'map_key', 'end_map', 'end_array'):
-                    raise DuplicateDEPElementException(
-                            prefix.split('.')[-1], idx)
-                builder.event(event, value)
-                items[idx] = builder.value
+            if event in ('end_map', 'end_array'):
+                depth -= 1
+            if event == 'map_key' and depth == 1:
+                rootkey = value
+            elif rootkey == 'Belege-Gruppe':
+                if depth == 2:
+                    key = None
+                    if event == 'start_map':
+                        idx += 1
+                        builder = ijson.ObjectBuilder()
+                elif event == 'map_key' and depth == 3:
+                    key = value
+                    if key == elem and idx in items:
+                        raise DuplicateDEPElementException(elem, idx)
+                elif depth >= 3 and key == elem:
+                    builder.event(event, value)
+                    items[idx] = builder.value
+            if event in ('start_map', 'start_array'):
+                depth += 1
         self.fd.seek(ofs)
 
         if chunksize == 0 or len(items) <= chunksize:
-- 
2.43.0

