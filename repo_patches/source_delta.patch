From 01a016389efeec2a9615636275409991a3445fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 01/38] fix: parse OCR codes on Python 3

---
 librksv/receipt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 0d81c14..15a47c9 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -552,7 +552,7 @@ class Receipt(object):
 
         encTurnoverCounter = None
         try:
-            encTurnoverCounter = utils.b32decode(segments[10])
+            encTurnoverCounter = utils.b32decode(segments[10].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Encrypted turnover counter \"{}\" not Base 32 encoded.'
@@ -560,7 +560,7 @@ class Receipt(object):
 
         previousChain = None
         try:
-            previousChain = utils.b32decode(segments[12])
+            previousChain = utils.b32decode(segments[12].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Chaining value \"{}\" not Base 32 encoded.'
@@ -568,7 +568,7 @@ class Receipt(object):
 
         signature = None
         try:
-            signature = utils.b32decode(segments[13])
+            signature = utils.b32decode(segments[13].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Signature \"{}\" not Base 32 encoded.'
-- 
2.43.0


From c283ed326517c27319c9298023ea6bbf98d5709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 02/38] fix: make InvalidKeyException survive pickling

---
 librksv/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index 1fbde92..9efec82 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -68,6 +68,7 @@ class InvalidKeyException(RKSVException):
 
     def __init__(self):
         super(InvalidKeyException, self).__init__(_("Invalid key."))
+        self._initargs = ()
 
 def depParserChunkSize():
     """
-- 
2.43.0


From bf7dc81ff9a4a4c8b58098bb055b5b1c6cdaad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 03/38] fix: give every work package its own set of used
 receipt IDs

---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index ad32b45..5c0a662 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -582,7 +582,7 @@ def prepareVerificationTuples(chunksWithVerifiers, key, prevStartJWS,
     del pkgRStates[-1]
 
     return zip(chunksWithVerifiers, [key] * npkgs, [prevStartJWS] * npkgs,
-            pkgRStates, [usedRecIdsBackend()] * npkgs)
+            pkgRStates, [usedRecIdsBackend() for i in range(npkgs)])
 
 def verifyParsedDEP(parser, keyStore, key, state = None,
         cashRegisterIdx = None, pool = None, nprocs = 1,
-- 
2.43.0


From 58d3f5d66cbaf5d34304d1a96d319d45a0260d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 04/38] fix: read DEP groups without certificate from streams
 in chunks

---
 librksv/depparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index d76bea3..0e8da68 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -166,6 +166,8 @@ class DEPStateWithIncompleteData(DEPStateWithData):
         def __init__(self):
             self.cert = None
             self.cert_chain = None
+            # A group without a certificate also has cert set to None.
+            self.cert_known = False
             self.recs = list()
 
     def __init__(self, chunksize, upper, idx):
@@ -177,12 +179,13 @@ class DEPStateWithIncompleteData(DEPStateWithData):
         self.idx = idx
 
     def needCrt(self):
-        if self.wip.cert is None or self.wip.cert_chain is None:
+        if not self.wip.cert_known or self.wip.cert_chain is None:
             return self.idx
         return None
 
     def setCrt(self, cert, cert_chain):
         self.wip.cert = cert
+        self.wip.cert_known = True
         self.wip.cert_chain = cert_chain
 
     def mergeIntoChunk(self):
@@ -283,6 +286,7 @@ class DEPStateGroup(DEPStateWithIncompleteData):
                         _('not a string'), self.idx)
             self.cert_seen = True
             self.wip.cert = parseDEPCert(value) if value != '' else None
+            self.wip.cert_known = True
 
         elif prefix == 'Belege-Gruppe.item.Zertifizierungsstellen':
             if self.cert_list_seen:
-- 
2.43.0


From d2d963852905beb40e5babf632f813349a862795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 05/38] fix: refuse DEPs whose receipts are not a list of
 strings

---
 librksv/depparser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 0e8da68..6266a98 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -345,7 +345,7 @@ def shrinkDEPReceipt(rec, idx = None):
     """
     try:
         return rec.encode('utf-8')
-    except TypeError:
+    except (TypeError, AttributeError, UnicodeError):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
@@ -606,7 +606,7 @@ class DictDEPParser(DEPParserI):
 
         cert_str = group['Signaturzertifikat']
         cert_str_list = group['Zertifizierungsstellen']
-        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
+        recs = group['Belege-kompakt']
 
         if not isinstance(cert_str, string_types):
             raise MalformedDEPElementException('Signaturzertifikat',
@@ -614,14 +614,13 @@ class DictDEPParser(DEPParserI):
         if not isinstance(cert_str_list, list):
             raise MalformedDEPElementException('Zertifizierungsstellen',
                     _('not a list'), idx)
-        try:
-            iter(receipts)
-        except TypeError:
+        if not isinstance(recs, list):
             raise MalformedDEPElementException('Belege-kompakt',
                     _('not a list'), idx)
 
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
+        receipts = (shrinkDEPReceipt(r) for r in recs)
 
         return receipts, cert, cert_list
 
-- 
2.43.0


From 4a035c2a1e86bc0e21b364948da77c88fbc2d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 06/38] fix: refuse empty certificate IDs in key stores

---
 librksv/key_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index f2c2742..59dd7ee 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -195,7 +195,7 @@ def strSerialToKeyIds(serial):
     empty if the serial is invalid.
     """
     # for some reason the ref impl has a negative serial on some certs
-    if serial[0] == '-':
+    if serial[:1] == '-':
         serial = serial[1:]
 
     validKeyIds = list()
-- 
2.43.0


From badcaa098a197394908e3a1f8d50315c5976bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 07/38] fix: never use the certificate of another group for a
 chunk

---
 librksv/depparser.py | 71 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 6266a98..2793311 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -526,26 +526,67 @@ class FileDEPParser(IncrementalDEPParser):
     DEP to be returned in a single chunk.
     """
 
-    def __getItems(self, prefix, chunksize):
-        if prefix in self.cache:
-            return self.cache[prefix]
+    @staticmethod
+    def __scanItems(fd, elem):
+        """
+        Collects the value of the given element (a string or a list of strings)
+        for every group in the DEP.
+        :return: A list with one entry per group. The entry is None if the
+        element is missing in (or malformed for) the group.
+        """
+        group = 'Belege-Gruppe.item'
+        prefix = '{}.{}'.format(group, elem)
+        items = list()
+        inGroups = False
+        inList = False
+
+        for curPrefix, event, value in ijson.parse(fd):
+            if curPrefix == 'Belege-Gruppe' and event == 'start_array':
+                inGroups = True
+            elif curPrefix == 'Belege-Gruppe' and event == 'end_array':
+                break
+            elif not inGroups:
+                continue
+            elif curPrefix == group and event == 'start_map':
+                items.append(None)
+            elif curPrefix == prefix:
+                inList = (event == 'start_array')
+                if event == 'start_array':
+                    items[-1] = list()
+                elif event != 'end_array':
+                    items[-1] = value
+            elif inList and curPrefix == prefix + '.item':
+                items[-1].append(value)
 
-        # cache miss, gotta parse the JSON again
-        ofs = self.fd.tell()
-        self.fd.seek(self.startpos)
-        items = list(ijson.items(self.fd, prefix))
-        self.fd.seek(ofs)
+        return items
 
-        if chunksize == 0 or len(items) <= chunksize:
-            self.cache[prefix] = items
+    def __getItem(self, elem, chunksize, groupidx):
+        if elem in self.cache:
+            items = self.cache[elem]
+        else:
+            # cache miss, gotta parse the JSON again
+            ofs = self.fd.tell()
+            self.fd.seek(self.startpos)
+            items = self.__scanItems(self.fd, elem)
+            self.fd.seek(ofs)
 
-        return items
+            if chunksize == 0 or len(items) <= chunksize:
+                self.cache[elem] = items
+
+        if items[groupidx] is None:
+            raise MissingDEPElementException(elem, groupidx)
+        return items[groupidx]
 
     def _needCerts(self, state, chunksize, groupidx):
-        cert_str = self.__getItems(
-                'Belege-Gruppe.item.Signaturzertifikat', chunksize)[groupidx]
-        cert_str_list = self.__getItems(
-                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)[groupidx]
+        cert_str = self.__getItem('Signaturzertifikat', chunksize, groupidx)
+        if not isinstance(cert_str, string_types):
+            raise MalformedDEPElementException('Signaturzertifikat',
+                    _('not a string'), groupidx)
+        cert_str_list = self.__getItem('Zertifizierungsstellen', chunksize,
+                groupidx)
+        if not isinstance(cert_str_list, list):
+            raise MalformedDEPElementException('Zertifizierungsstellen',
+                    _('not a list'), groupidx)
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
         state.setCrt(cert, cert_list)
-- 
2.43.0


From c7abe9ae93968f5ff216b05e44adce169dc9b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 08/38] fix: refuse line breaks, foreign digits and unpadded
 dates in receipt fields

---
 librksv/receipt.py | 10 +++++++---
 librksv/utils.py   |  8 ++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 15a47c9..f92f35b 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -159,8 +159,11 @@ class CertSerialType(enum.Enum):
                 except ValueError as f:
                     return CertSerialType.INVALID
 
-algRegex = re.compile(r'^R[1-9]\d*$')
-zdaRegex = re.compile(r'^([A-Z][A-Z][1-9]\d*|AT0)$')
+algRegex = re.compile(r'^R[1-9][0-9]*\Z')
+zdaRegex = re.compile(r'^([A-Z][A-Z][1-9][0-9]*|AT0)\Z')
+# strptime() also accepts missing leading zeros and a lower case t.
+timestampRegex = re.compile(
+        r'^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}\Z')
 
 def _getSum(s, receiptId, reason):
     if not isinstance(s, string_types) or not s:
@@ -171,7 +174,8 @@ def _getSum(s, receiptId, reason):
     return sF
 
 def _getTimestamp(dateTime, receiptId, reason):
-    if not isinstance(dateTime, string_types) or not dateTime:
+    if not isinstance(dateTime, string_types) or not dateTime \
+            or timestampRegex.match(dateTime) is None:
         raise MalformedReceiptException(receiptId, reason)
     try:
         dateTimeDT = datetime.datetime.strptime(dateTime, "%Y-%m-%dT%H:%M:%S")
diff --git a/librksv/utils.py b/librksv/utils.py
index 9efec82..bcc1598 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -253,19 +253,19 @@ def restoreb64padding(data):
     return data
 
 
-urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}$')
+urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}\Z')
 def urlsafe_b64decode(data):
     if not urlsafe_b64Regex.match(data.decode('utf-8')):
         raise TypeError
     return base64.urlsafe_b64decode(data)
 
-b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}$')
+b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}\Z')
 def b64decode(data):
     if not b64Regex.match(data.decode('utf-8')):
         raise TypeError
     return base64.b64decode(data)
 
-b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}$')
+b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}\Z')
 def b32decode(data):
     if not b32Regex.match(data.decode('utf-8')):
         raise TypeError
@@ -328,7 +328,7 @@ def makeSignedCert(cpub, ccn, cvdays, cserial, spriv, scert=None):
     return builder.sign(private_key=spriv, algorithm=hashes.SHA256(),
             backend=default_backend())
 
-receiptFloatRegex = re.compile(r'^-?([1-9]\d+|\d)\,\d\d$')
+receiptFloatRegex = re.compile(r'^-?([1-9][0-9]+|[0-9])\,[0-9][0-9]\Z')
 def getReceiptFloat(fstr):
     if receiptFloatRegex.match(fstr) is None:
         return None
-- 
2.43.0


From e663ffe079b51e522af6b19dbd6f36b00a8308a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 09/38] fix: refuse receipts that can not be encoded

---
 librksv/receipt.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index f92f35b..405c34a 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -165,6 +165,13 @@ zdaRegex = re.compile(r'^([A-Z][A-Z][1-9][0-9]*|AT0)\Z')
 timestampRegex = re.compile(
         r'^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}\Z')
 
+def _checkEncodable(s, reason):
+    # JSON strings may contain lone surrogates.
+    try:
+        s.encode('utf-8')
+    except UnicodeError:
+        raise MalformedReceiptException(_("Unknown Receipt"), reason)
+
 def _getSum(s, receiptId, reason):
     if not isinstance(s, string_types) or not s:
         raise MalformedReceiptException(receiptId, reason)
@@ -318,6 +325,7 @@ class Receipt(object):
         """
         if not isinstance(jwsString, string_types):
             raise MalformedReceiptException(jwsString, _('Invalid JWS.'))
+        _checkEncodable(jwsString, _('Invalid JWS.'))
 
         jwsSegs = jwsString.split('.')
         if len(jwsSegs) != 3:
@@ -456,6 +464,7 @@ class Receipt(object):
         if not isinstance(basicCode, string_types):
             raise MalformedReceiptException(basicCode,
                     _('Invalid machine-readable code.'))
+        _checkEncodable(basicCode, _('Invalid machine-readable code.'))
 
         segments = basicCode.split('_')
         if len(segments) != 14 or len(segments[0]) != 0:
@@ -548,6 +557,7 @@ class Receipt(object):
         if not isinstance(ocrCode, string_types):
             raise MalformedReceiptException(ocrCode,
                     _('Invalid OCR code.'))
+        _checkEncodable(ocrCode, _('Invalid OCR code.'))
 
         segments = ocrCode.split('_')
         if len(segments) != 14 or len(segments[0]) != 0:
-- 
2.43.0


From 6c3db0e507cc928ca4343c5aa3749c97167b6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 10/38] fix: only merge groups with the same certificate chain

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index 063f3c3..c2e4729 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -100,7 +100,7 @@ class MergingDEPStream(DEPStream):
                 except StopIteration:
                     # no more receipts, fetch next group, see if it continues
                     rec_tuples, cert, cert_list = next(self._outer._backing)
-                    if self.cert == cert and cert_list == cert_list:
+                    if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
                         self.extend(rec_tuples)
                         continue
-- 
2.43.0


From 2842be722953bf0ad9f73a19c17fed62158bbf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 11/38] fix: return generators from the dictionary exporter by
 default

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index c2e4729..e676730 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -197,7 +197,7 @@ class DEPExporter(DEPExporterI):
     which can be used to create new lists from the generators (by passing list).
     """
 
-    def __init__(self, dep_stream, output_generator_wrapper=id):
+    def __init__(self, dep_stream, output_generator_wrapper=lambda g: g):
         self._stream = dep_stream
         self._wrapper = output_generator_wrapper
         self._extra = dict()
-- 
2.43.0


From 23ea079c55f432ec1384849a0fe838ffcd2b7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 12/38] fix: compute turnover sums exactly

---
 librksv/receipt.py            | 9 +++++++++
 librksv/utils.py              | 7 ++++++-
 librksv/verification_state.py | 6 ++----
 librksv/verify.py             | 4 ++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 405c34a..af46fbd 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -739,6 +739,15 @@ class Receipt(object):
         """
         return self.sumA == 0.0 and self.sumB == 0.0 and self.sumC == 0.0 and self.sumD == 0.0 and self.sumE == 0.0
 
+    def turnoverInCents(self):
+        """
+        Computes the turnover of this receipt. The string representations of
+        the sums are used because floats are not exact for large amounts.
+        :return: The total of all sums in cents as an int.
+        """
+        return sum(int(s.replace(',', '')) for s in [self.sumAStr,
+            self.sumBStr, self.sumCStr, self.sumDStr, self.sumEStr])
+
     def decryptTurnoverCounter(self, key, algorithm):
         """
         Decrypts the encrypted turnover counter using the given key and
diff --git a/librksv/utils.py b/librksv/utils.py
index bcc1598..48af236 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -334,10 +334,15 @@ def getReceiptFloat(fstr):
         return None
 
     try:
-        return float(fstr.replace(',', '.'))
+        ret = float(fstr.replace(',', '.'))
     except:
         return None
 
+    # too large for a float
+    if abs(ret) == float('inf'):
+        return None
+    return ret
+
 def skipBOM(fd):
     """
     Removes the BOM from UTF-8 files so that we can live in peace.
diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7fb81ea..e04f2ee 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -408,8 +408,7 @@ class CashRegisterState(object):
                 reversals.insert(0, ro)
 
         for ro in reversals:
-            self.lastTurnoverCounter += int(round(
-                (ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))
+            self.lastTurnoverCounter += ro.turnoverInCents()
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
@@ -448,8 +447,7 @@ class ClusterState(object):
         dummyLastTC = 0
         if key and not rec.isDummy() and not rec.isReversal():
             curTC = rec.decryptTurnoverCounter(key, algorithm)
-            dummyLastTC = curTC - int(round((rec.sumA + rec.sumB + rec.sumC
-                + rec.sumD + rec.sumE) * 100))
+            dummyLastTC = curTC - rec.turnoverInCents()
 
         dummyChain = base64.b64encode("DUMMY000".encode('utf-8'))
         dummyRec = receipt.Receipt(rec.zda, rec.registerId, "dummyrec",
diff --git a/librksv/verify.py b/librksv/verify.py
index 5c0a662..8124b5c 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -429,8 +429,8 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
         if not ro.isDummy():
             if key is not None:
                 utils.raiseForKey(key, algorithm)
-                newC = cashRegisterState.lastTurnoverCounter + int(round(
-                    (ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))
+                newC = cashRegisterState.lastTurnoverCounter + \
+                        ro.turnoverInCents()
                 if not ro.isReversal():
                     turnoverCounter = ro.decryptTurnoverCounter(key, algorithm)
                     if turnoverCounter != newC:
-- 
2.43.0


From d586dda6e5615f6c587cb29883b9546b93c8a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 13/38] fix: do not take a later receipt for the start receipt

---
 librksv/verification_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index e04f2ee..f0e8d99 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -386,7 +386,9 @@ class CashRegisterState(object):
         else:
             self.needRestoreReceipt = False
 
-        if not self.startReceiptJWS:
+        # Like in verifyGroup(), only the first receipt of a register is its
+        # start receipt.
+        if not self.lastReceiptJWS:
             self.startReceiptJWS = depparser.expandDEPReceipt(group[0])
 
         self.lastReceiptJWS = depparser.expandDEPReceipt(group[-1])
-- 
2.43.0


From 909f37eb0ea6372364b2cfc4d8850e656965e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 14/38] fix: check that the ID of an initial receipt is unused,
 too

---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index 8124b5c..0ce1ee6 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -396,8 +396,8 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
 
             cashRegisterState.startReceiptJWS = r
 
+        usedReceiptIds.check(ro.receiptId)
         if prevObj:
-            usedReceiptIds.check(ro.receiptId)
             if prevObj.registerId != ro.registerId:
                 raise ChangingRegisterIdException(ro.receiptId)
             if (prevObj.zda == 'AT0' and ro.zda != 'AT0') or (
-- 
2.43.0


From 87010af9a6d603265a4bca1e227db5f3842636b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 15/38] fix: allow any characters in naturally sorted receipt
 IDs

---
 librksv/verification_state.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index f0e8d99..8b201df 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -228,7 +228,14 @@ class UsedReceiptIdsSortedNatural(UsedReceiptIdsBackend):
     # https://blog.codinghorror.com/sorting-for-humans-natural-sort-order/
     @staticmethod
     def _key(recId):
-        convert = lambda text: int(text) if text.isdigit() else text.lower()
+        # Only treat what was matched by the regex as a number, isdigit() also
+        # knows other digits. Comparing the lengths first avoids a conversion
+        # to int, which is not possible for very long numbers.
+        def convert(text):
+            if _numSplitRegex.match(text):
+                digits = text.lstrip('0')
+                return (len(digits), digits)
+            return text.lower()
         return [ convert(c) for c in _numSplitRegex.split(recId) ]
 
     def __init__(self):
-- 
2.43.0


From 26de73cd2b5ae7d0fbdda78d8dd3391923d0478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 16/38] fix: reject signatures by keys that can not be used
 with ES256

---
 librksv/algorithms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/librksv/algorithms.py b/librksv/algorithms.py
index c0b9d1d..29fe6e1 100644
--- a/librksv/algorithms.py
+++ b/librksv/algorithms.py
@@ -29,6 +29,7 @@ import base64
 import jwt
 import jwt.algorithms
 
+from cryptography.hazmat.primitives.asymmetric import ec
 from six import binary_type
 
 from . import utils
@@ -186,6 +187,11 @@ class R1(AlgorithmI):
         return sig
 
     def verify(self, jwsString, pubKey):
+        # ES256 is only defined for P-256 keys.
+        if not isinstance(pubKey, ec.EllipticCurvePublicKey) or \
+                not isinstance(pubKey.curve, ec.SECP256R1):
+            return False
+
         payload = None
         try:
             payload = jwt.PyJWS().decode(jwsString, pubKey)
-- 
2.43.0


From ba21c8d18b3816bbc0e3436bb9803b51d631de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 17/38] fix: handle certificates with unsupported keys or
 signatures

---
 librksv/utils.py          | 26 ++++++++++++++++++++++----
 librksv/verify_receipt.py |  4 ++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 48af236..b71a9a8 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -41,7 +41,7 @@ from cryptography.hazmat.primitives.asymmetric import ec, rsa, padding
 from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
 from cryptography.hazmat.primitives.serialization import load_pem_private_key, load_pem_public_key, Encoding, PublicFormat
 from cryptography.hazmat.primitives import hashes
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.x509.oid import NameOID
 
 class RKSVException(Exception):
@@ -205,11 +205,17 @@ def verifyCert(cert, signCert):
     :return: True if the signature is a valid ECDSA signature, False otherwise.
     """
     # FIXME: This is very likely wrong and we should find a better way to verify certs.
-    halg = cert.signature_hash_algorithm
+    try:
+        halg = cert.signature_hash_algorithm
+    except UnsupportedAlgorithm:
+        return False
+    # Some signature types (e.g. Ed25519) do not use a separate hash.
+    if halg is None:
+        return False
     sig = cert.signature
     data = cert.tbs_certificate_bytes
 
-    pubKey = signCert.public_key()
+    pubKey = certPublicKey(signCert)
     alg = None
     # We only support ECDSA and RSA+PKCS1
     if isinstance(pubKey, ec.EllipticCurvePublicKey):
@@ -224,9 +230,21 @@ def verifyCert(cert, signCert):
     try:
         ver()
         return True
-    except InvalidSignature as e:
+    except (InvalidSignature, UnsupportedAlgorithm, ValueError) as e:
         return False
 
+def certPublicKey(cert):
+    """
+    Gets the public key of a certificate.
+    :param cert: The certificate as a cryptography certificate object.
+    :return: The public key as a cryptography key object or None if the type of
+    the key is not supported.
+    """
+    try:
+        return cert.public_key()
+    except (ValueError, UnsupportedAlgorithm, NotImplementedError):
+        return None
+
 def certFingerprint(cert):
     """
     Gets a certificates SHA256 fingerprint.
diff --git a/librksv/verify_receipt.py b/librksv/verify_receipt.py
index bb6c203..d9f7e74 100644
--- a/librksv/verify_receipt.py
+++ b/librksv/verify_receipt.py
@@ -226,7 +226,7 @@ class ReceiptVerifier(ReceiptVerifierI):
         pubKey = None
         if rec.zda == 'AT0':
             if self.cert:
-                pubKey = self.cert.public_key()
+                pubKey = utils.certPublicKey(self.cert)
             else:
                 pubKey = self.keyStore.getKey(rec.certSerial)
         else:
@@ -235,7 +235,7 @@ class ReceiptVerifier(ReceiptVerifierI):
                 certSerial = key_store.numSerialToKeyId(self.cert.serial_number)
                 if not certSerial in serials:
                     raise CertSerialMismatchException(rec.receiptId)
-                pubKey = self.cert.public_key()
+                pubKey = utils.certPublicKey(self.cert)
             else:
                 for serial in serials:
                     pubKey = self.keyStore.getKey(serial)
-- 
2.43.0


From 2e8356aed08f9374182a4ffc9c064aab29de0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 18/38] fix: refuse unsupported keys in key stores with a
 proper error

---
 librksv/key_store.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index 59dd7ee..9f74cf4 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -25,6 +25,7 @@ from builtins import range
 
 from .gettext_helper import _
 
+from cryptography.exceptions import UnsupportedAlgorithm
 from six import string_types
 
 import copy
@@ -229,6 +230,19 @@ def parseKeyStoreCert(cert_str, kid):
     except ValueError:
         raise MalformedCertificateException(kid)
 
+def keyFromKeyStoreCert(cert, kid):
+    """
+    Gets the public key of a certificate in a key store.
+    :param cert: The certificate as a cryptography certificate object.
+    :param kid: The key ID under which the cert is stored.
+    :return: A cryptography public key object.
+    :throws: MalformedCertificateException
+    """
+    key = utils.certPublicKey(cert)
+    if key is None:
+        raise MalformedCertificateException(kid)
+    return key
+
 def parseKeyStorePubkey(pubkey_str, kid):
     """
     Turns a public key string as used in a key store into a public key object.
@@ -243,7 +257,7 @@ def parseKeyStorePubkey(pubkey_str, kid):
 
     try:
         return utils.loadPubKey(utils.addPEMPubKeyHeaders(pubkey_str))
-    except ValueError:
+    except (ValueError, UnsupportedAlgorithm, NotImplementedError):
         raise MalformedPublicKeyException(kid)
 
 class KeyTuple(object):
@@ -358,7 +372,7 @@ class KeyStore(KeyStoreI):
                 keyId = keyId.replace('u;', 'U:')
                 keyId = keyId.replace('g;', 'G:')
                 cert = parseKeyStoreCert(certStr, keyId)
-                key = cert.public_key()
+                key = keyFromKeyStoreCert(cert, keyId)
                 keyStore.putKey(keyId, key, cert)
         if config.has_section('public_keys'):
             for keyId, keyStr in config.items('public_keys'):
@@ -461,7 +475,7 @@ class KeyStore(KeyStoreI):
                             _('invalid certificate ID \"{}\"').format(rawId), rawId)
                 keyId = certIds[0]
                 cert = parseKeyStoreCert(cpStr, keyId)
-                key = cert.public_key()
+                key = keyFromKeyStoreCert(cert, keyId)
             elif devType == 'PUBLIC_KEY':
                 keyId = value['id']
                 key = parseKeyStorePubkey(cpStr, keyId)
-- 
2.43.0


From deb5ffbaaea2473bb976e6dfd0ef1857f9b17a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 19/38] fix: allow key stores with any type of key to be sent
 to processes

---
 librksv/key_store.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index 9f74cf4..4d7db37 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -270,6 +270,19 @@ class KeyTuple(object):
         self.key = key
         self.cert = cert
 
+    # Not all types of key objects can be pickled.
+    def __getstate__(self):
+        key = self.key
+        if key is not None:
+            key = utils.exportKeyToPEM(key)
+        return (self.keyId, key, self.cert)
+
+    def __setstate__(self, state):
+        self.keyId, key, self.cert = state
+        if key is not None:
+            key = utils.loadPubKey(utils.addPEMPubKeyHeaders(key))
+        self.key = key
+
 class KeyStore(KeyStoreI):
     """
     A basic implementation of a key store. It allows writing the store to and
-- 
2.43.0


From 9b5ba3629905b389c5bf5b61e8ca472bd64e4a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 20/38] fix: report unreadable DEP files as parse errors

---
 librksv/depparser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 2793311..23234dd 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -418,7 +418,10 @@ class IncrementalDEPParser(DEPParserI):
 
     def __init__(self, fd):
         # skipBOM checks if we can seek, so no harm in doing it to a non-file
-        self.startpos = utils.skipBOM(fd)
+        try:
+            self.startpos = utils.skipBOM(fd)
+        except UnicodeDecodeError as e:
+            raise DEPParseException(_('Malformed JSON: {}.').format(e))
         self.fd = fd
 
     @staticmethod
@@ -473,7 +476,9 @@ class IncrementalDEPParser(DEPParserI):
                 yield last
             elif not got_something:
                 raise MalformedDEPException(_('No receipts found'))
-        except ijson.JSONError as e:
+        # Besides JSONError, reading text may fail and so may the conversion
+        # of numbers.
+        except (ijson.JSONError, UnicodeDecodeError, ArithmeticError) as e:
             raise DEPParseException(_('Malformed JSON: {}.').format(e))
 
 
@@ -739,7 +744,7 @@ class FullFileDEPParser(DEPParserI):
         if not self.dictParser:
             try:
                 dep = utils.readJsonStream(self.fd)
-            except (IOError, UnicodeDecodeError, ValueError) as e:
+            except (IOError, ValueError, RuntimeError) as e:
                 raise DEPParseException(_('Malformed JSON: {}.').format(e))
             self.dictParser = DictDEPParser(dep, self.nparts)
 
-- 
2.43.0


From 6f84c557ee3f2dda7c9e525380a3f11bd4b08021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 21/38] fix: import what the url format of
 verification_state.py needs

---
 verification_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verification_state.py b/verification_state.py
index edd509f..3e959e5 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -32,6 +32,7 @@ gettext.install('rktool', './lang', True)
 from librksv import depparser
 from librksv import utils
 from librksv.receipt import Receipt
+from librksv.url_receipt_helpers import getBasicCodeFromURL
 from librksv.verification_state import (CashRegisterState, ClusterState,
         DEFAULT_USED_RECEIPT_IDS_BACKEND)
 
-- 
2.43.0


From 98ab912ebededfddd559ce94442bc556f968d4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 22/38] fix: do not lose certificates that follow their
 receipts

---
 cert_extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cert_extract.py b/cert_extract.py
index cc71ad6..a7fc38b 100755
--- a/cert_extract.py
+++ b/cert_extract.py
@@ -43,7 +43,7 @@ if __name__ == "__main__":
         os.mkdir(outDir)
     os.chdir(outDir)
 
-    parser = depparser.CertlessStreamDEPParser(sys.stdin)
+    parser = depparser.IncrementalDEPParser.fromFd(sys.stdin, True)
     for chunk in parser.parse(utils.depParserChunkSize()):
         for recs, cert, cert_list in chunk:
             groupCerts = list(cert_list)
-- 
2.43.0


From b24aeee90c879d0c55c443600d2bae4e9493c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:26 +0000
Subject: [PATCH 23/38] fix: make the scripts start on Python 3.11 and later

---
 cert_extract.py           |  4 ++--
 convert.py                |  4 ++--
 demo.py                   |  4 ++--
 img_decode.py             |  4 ++--
 key_store.py              |  4 ++--
 librksv/gettext_helper.py | 10 ++++++++++
 merge.py                  |  4 ++--
 receipt.py                |  4 ++--
 receipt_host.py           |  4 ++--
 rktool.py                 |  4 ++--
 split.py                  |  4 ++--
 verification_state.py     |  4 ++--
 verify.py                 |  4 ++--
 verify_receipt.py         |  4 ++--
 14 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/cert_extract.py b/cert_extract.py
index a7fc38b..68eb9c8 100755
--- a/cert_extract.py
+++ b/cert_extract.py
@@ -20,8 +20,8 @@
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import os
 import sys
diff --git a/convert.py b/convert.py
index 81263d8..3a100dd 100755
--- a/convert.py
+++ b/convert.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import sys
 
diff --git a/demo.py b/demo.py
index d56d710..ec88121 100755
--- a/demo.py
+++ b/demo.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import datetime
 import random
diff --git a/img_decode.py b/img_decode.py
index 8662b35..ccaa851 100755
--- a/img_decode.py
+++ b/img_decode.py
@@ -70,8 +70,8 @@ except ImportError:
         return syms
 
 if __name__ == "__main__":
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     import sys
     from PIL import Image
diff --git a/key_store.py b/key_store.py
index 5ad9762..9a9bf3a 100755
--- a/key_store.py
+++ b/key_store.py
@@ -24,8 +24,8 @@ import configparser
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import utils
 from librksv.key_store import KeyStore
diff --git a/librksv/gettext_helper.py b/librksv/gettext_helper.py
index 851f95d..03aed8e 100644
--- a/librksv/gettext_helper.py
+++ b/librksv/gettext_helper.py
@@ -22,3 +22,13 @@ import six
 # We always want text to be unicode encoded.
 _gt = gettext.translation('rktool', './lang', fallback=True)
 _ = _gt.ugettext if six.PY2 else _gt.gettext
+
+def install():
+    """
+    Makes the gettext function available as _() in all modules. This is
+    intended to be used by scripts.
+    """
+    if six.PY2:
+        gettext.install('rktool', './lang', True)
+    else:
+        gettext.install('rktool', './lang')
diff --git a/merge.py b/merge.py
index 80e6ff4..3b28d3c 100755
--- a/merge.py
+++ b/merge.py
@@ -22,8 +22,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/receipt.py b/receipt.py
index ada49d9..0e68de2 100755
--- a/receipt.py
+++ b/receipt.py
@@ -21,8 +21,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv.receipt import Receipt
 from librksv.url_receipt_helpers import getBasicCodeFromURL
diff --git a/receipt_host.py b/receipt_host.py
index 6e4077c..a2bb3dd 100755
--- a/receipt_host.py
+++ b/receipt_host.py
@@ -24,8 +24,8 @@ import sys
 
 from flask import Flask, abort, jsonify, make_response
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import receipt
diff --git a/rktool.py b/rktool.py
index 6fa1884..5c36e86 100755
--- a/rktool.py
+++ b/rktool.py
@@ -1040,8 +1040,8 @@ class RKToolApp(App):
         return sm
 
 if __name__ == '__main__':
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     if platform != 'android':
         from kivy.config import Config
diff --git a/split.py b/split.py
index 40174d7..2d0dfe4 100755
--- a/split.py
+++ b/split.py
@@ -22,8 +22,8 @@ from builtins import int
 import os
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/verification_state.py b/verification_state.py
index 3e959e5..3aa0c6b 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -26,8 +26,8 @@ import copy
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import utils
diff --git a/verify.py b/verify.py
index dbf7ae4..b97aefb 100755
--- a/verify.py
+++ b/verify.py
@@ -24,8 +24,8 @@ from builtins import range
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import key_store
diff --git a/verify_receipt.py b/verify_receipt.py
index 03bdd76..94a8bbf 100755
--- a/verify_receipt.py
+++ b/verify_receipt.py
@@ -24,8 +24,8 @@ import sys
 
 from six import string_types
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import key_store
 from librksv import receipt
-- 
2.43.0


From 2d7ceaf5c1978afdabbc9694699252750b0de0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 24/38] fix: refuse booleans as turnover counter of a stored
 state

---
 librksv/verification_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 8b201df..30f7b6e 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -349,7 +349,9 @@ class CashRegisterState(object):
                     _('not a string'), regidx)
 
         ret.lastTurnoverCounter = d['lastTurnoverCounter']
-        if not isinstance(ret.lastTurnoverCounter, int):
+        # Booleans are integers in Python, but not in JSON.
+        if not isinstance(ret.lastTurnoverCounter, int) or isinstance(
+                ret.lastTurnoverCounter, bool):
             raise MalformedStateElementException('lastTurnoverCounter',
                     _('not an integer'), regidx)
 
-- 
2.43.0


From 0222190a09fdd54e8897eb95982a412df76f2214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 25/38] fix: report the error of the first failing work package

---
 librksv/verify.py | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index 0ce1ee6..8a5493f 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -503,6 +503,35 @@ def verifyGroupsWithVerifiersTuple(args):
     """
     return verifyGroupsWithVerifiers(*args)
 
+def tryVerifyGroupsWithVerifiersTuple(args):
+    """
+    Like verifyGroupsWithVerifiersTuple() but returns a tuple of the result
+    and the error that occured, one of which is None. A process pool
+    would raise the error that happens to arrive first, not the one that
+    comes first in the DEP.
+    """
+    try:
+        return verifyGroupsWithVerifiersTuple(args), None
+    except utils.RKSVException as e:
+        return None, e
+
+def getFirstErrorOrResults(results):
+    """
+    Raises the error of the first work package that failed. If there is none,
+    the results of all work packages are returned.
+    :param results: The list of tuples returned by
+    tryVerifyGroupsWithVerifiersTuple() in the order of the work packages.
+    :return: A list of the register states and a list of the used receipt IDs
+    of all packages.
+    """
+    outresults = list()
+    for result, error in results:
+        if error is not None:
+            raise error
+        outresults.append(result)
+
+    return zip(*outresults)
+
 def balanceGroupsWithVerifiers(groups, nprocs):
     """
     Takes a list of tuples with lists of receipts and their according
@@ -655,7 +684,7 @@ def verifyParsedDEP(parser, keyStore, key, state = None,
         pkgs = [ packageChunkWithVerifiers(chunk, keyStore) for chunk in chunks ]
 
         if res is not None:
-            outRStates, outUsedRecIds = zip(*res.get())
+            outRStates, outUsedRecIds = getFirstErrorOrResults(res.get())
             usedRecIds.merge(outUsedRecIds)
             rState = outRStates[-1]
 
@@ -664,13 +693,14 @@ def verifyParsedDEP(parser, keyStore, key, state = None,
 
         # apply verifyGroup() to each package
         if not pool:
-            outresults = map(verifyGroupsWithVerifiersTuple, wargs)
+            outresults = map(tryVerifyGroupsWithVerifiersTuple, wargs)
             res = type('DummyAsyncResult', (object,), {"data": outresults})
             res.get = MethodType(lambda self: self.data, res)
         else:
-            res = pool.map_async(verifyGroupsWithVerifiersTuple, wargs)
+            res = pool.map_async(tryVerifyGroupsWithVerifiersTuple,
+                    wargs)
 
-    outRStates, outUsedRecIds = zip(*res.get())
+    outRStates, outUsedRecIds = getFirstErrorOrResults(res.get())
     usedRecIds.merge(outUsedRecIds)
     rState = outRStates[-1]
 
-- 
2.43.0


From 303c43749439b5c839db82d928ca7e31b9c4a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:47 +0000
Subject: [PATCH 26/38] fix: refuse certificates of an unknown version as
 malformed

---
 librksv/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index b71a9a8..2ba5277 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -132,8 +132,12 @@ def loadCert(pem):
     Creates a cryptography certificate object from the given PEM certificate.
     :param pem: A certificate as a PEM string.
     :return: A cryptography certificate object.
+    :throws: ValueError If the certificate is malformed.
     """
-    return x509.load_pem_x509_certificate(pem.encode("utf-8"), default_backend())
+    try:
+        return x509.load_pem_x509_certificate(pem.encode("utf-8"), default_backend())
+    except x509.InvalidVersion as e:
+        raise ValueError(str(e))
 
 def loadPubKey(pem):
     """
-- 
2.43.0


From 466a604536bb425ec9908c9b9391880b8e47bb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 27/38] fix: let go of merged groups that were written

---
 librksv/depexport.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index e676730..88cd9c4 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -99,15 +99,13 @@ class MergingDEPStream(DEPStream):
                     return next(self._backing)
                 except StopIteration:
                     # no more receipts, fetch next group, see if it continues
-                    rec_tuples, cert, cert_list = next(self._outer._backing)
+                    rec_tuples, cert, cert_list = self._outer._nextGroup()
                     if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
                         self.extend(rec_tuples)
                         continue
                     # no additional receipts, reinsert extracted group and stop
-                    self._outer._backing = itertools.chain(
-                            [(rec_tuples, cert, cert_list)],
-                            self._outer._backing)
+                    self._outer._pending = (rec_tuples, cert, cert_list)
                     raise
 
         def throw(self, type=None, value=None, traceback=None):
@@ -116,9 +114,20 @@ class MergingDEPStream(DEPStream):
         def extend(self, more):
             self._backing = itertools.chain(self._backing, more)
 
+    # A group that was extracted but does not belong to the current one. Not
+    # chained to the backing, as chains do not let go of what they have yielded.
+    _pending = None
+
+    def _nextGroup(self):
+        if self._pending is None:
+            return next(self._backing)
+        group = self._pending
+        self._pending = None
+        return group
+
     def send(self, dummy):
         while True:
-            rec_tuples, cert, cert_list = next(self._backing)
+            rec_tuples, cert, cert_list = self._nextGroup()
 
             if (self._last is None or self._last.cert != cert or
                     self._last.cert_list != cert_list):
-- 
2.43.0


From 9977ee210820127a764527f8b80310239009d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:39 +0000
Subject: [PATCH 28/38] fix: leave the register as it was if a receipt could
 not be issued

---
 librksv/cashreg.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/librksv/cashreg.py b/librksv/cashreg.py
index df6b3b2..19554a8 100644
--- a/librksv/cashreg.py
+++ b/librksv/cashreg.py
@@ -143,25 +143,26 @@ class CashRegister(CashRegisterI):
         if 'turnoverCounterSize' in override:
             self.turnoverCounterSize = override['turnoverCounterSize']
 
+        turnoverCounter = self.turnoverCounter
         encTurnoverCounter = None
         if dummy:
             encTurnoverCounter = b'TRA'
 
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
         else:
             # TODO: check if counter can still be represented with
             # given size
-            self.turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
+            turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
 
             if reversal:
                 encTurnoverCounter = b'STO'
             else:
                 utils.raiseForKey(self.key, algorithm)
                 encTurnoverCounter = algorithm.encryptTurnoverCounter(rec,
-                        self.turnoverCounter, self.key,
+                        turnoverCounter, self.key,
                         self.turnoverCounterSize)
         encTurnoverCounter = base64.b64encode(encTurnoverCounter)
         encTurnoverCounter = encTurnoverCounter.decode("utf-8")
@@ -175,14 +176,17 @@ class CashRegister(CashRegisterI):
         prefix = override.get('algorithmPrefix', prefix)
         jwsString = sigSystem.sign(rec.toPayloadString(prefix),
                 algorithm)
-        self.lastReceiptSig = jwsString
-        
+
         header, payload, signature = jwsString.split('.')
         header = base64.urlsafe_b64decode(
                 utils.restoreb64padding(header).encode('utf-8')
                 ).decode('utf-8')
         rec.sign(header, signature)
 
+        # Until here, the receipt could still fail to be issued.
+        self.lastReceiptSig = jwsString
+        self.turnoverCounter = turnoverCounter
+
         if 'header' in override:
             rec.header = override['header']
         if 'signature' in override:
-- 
2.43.0


From 8109f4182dbb777d957105350ee8ee0963f7cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:11 +0000
Subject: [PATCH 29/38] fix: treat unusable answers of the signing service as
 outage

---
 librksv/sigsys.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/librksv/sigsys.py b/librksv/sigsys.py
index a2914f5..27c93af 100644
--- a/librksv/sigsys.py
+++ b/librksv/sigsys.py
@@ -26,6 +26,8 @@ from .gettext_helper import _
 import base64
 import requests
 
+from . import utils
+
 class SignatureSystemI(object):
     """
     The base class for signature systems. It contains functions that every
@@ -155,12 +157,24 @@ class SignatureSystemATrustMobile(SignatureSystemI):
         if algorithm.sigAlgo() != self.algo:
             raise Exception(_("Selected algorithm not supported."))
 
+        broken = SignatureSystemBroken(self.zda, self.serial).sign(data,
+                algorithm)
+
         rdata = { 'password': self.password, 'jws_payload': data }
         try:
             r = requests.post(self.ATrustURL + SignEndpoint, json=rdata,
                     verify=self.certFile)
             r.raise_for_status()
-            return r.json()['result']
-        except requests.exceptions.RequestException as e:
-            return SignatureSystemBroken(self.zda, self.serial).sign(data,
-                    algorithm)
+            header, payload, signature = r.json()['result'].split('.')
+            usable = signature != '' and utils.urlsafe_b64decode(
+                    utils.restoreb64padding(signature).encode('utf-8'))
+        except (requests.exceptions.RequestException, ValueError, KeyError,
+                TypeError, AttributeError):
+            return broken
+
+        # Anything that does not sign our data is of no use, either.
+        if not usable or signature.endswith('=') or \
+                [header, payload] != broken.split('.')[0:2]:
+            return broken
+
+        return '.'.join([header, payload, signature])
-- 
2.43.0


From e566bf110a61d6cedd4069ee95b3f810b22dff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 30/38] fix: count the sums of a receipt as they are printed

---
 librksv/cashreg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/cashreg.py b/librksv/cashreg.py
index 19554a8..f32f9e2 100644
--- a/librksv/cashreg.py
+++ b/librksv/cashreg.py
@@ -153,7 +153,9 @@ class CashRegister(CashRegisterI):
         else:
             # TODO: check if counter can still be represented with
             # given size
-            turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
+            # The sums as printed count, they could have been rounded.
+            turnoverCounter += sum(int(s.replace(',', '')) for s in [sumAStr,
+                sumBStr, sumCStr, sumDStr, sumEStr])
             if 'turnoverCounter' in override:
                 turnoverCounter = int(override['turnoverCounter'])
 
-- 
2.43.0


From a9cf908c1011fb92cef2e066101a7bd21a021674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:43 +0000
Subject: [PATCH 31/38] fix: accept AES key files that end with a line break
 again

---
 librksv/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 2ba5277..f12a754 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -87,7 +87,8 @@ def raiseForKey(key, algorithm):
         raise InvalidKeyException()
 
 def loadB64Key(b64Key):
-    return b64decode(b64Key)
+    # Key files usually end with a line break.
+    return b64decode(b64Key.strip())
 
 def loadKeyFromJson(json):
     """
-- 
2.43.0


From 82cb708a709e9606882483b2b78633edd90b1347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:56 +0000
Subject: [PATCH 32/38] fix: show the receipts of a DEP in the graphical tool

---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index 5c36e86..7531c6a 100755
--- a/rktool.py
+++ b/rktool.py
@@ -600,7 +600,7 @@ class VerifyDEPWidget(BoxLayout):
     def viewReceipt(self, btn):
         try:
             recs, cert, cert_list = self.dep[btn.group_id]
-            jws = recs[btn.receipt_id]
+            jws = depparser.expandDEPReceipt(recs[btn.receipt_id])
             rec, prefix = receipt.Receipt.fromJWSString(jws)
 
             self._receipt_view = getModalView()
-- 
2.43.0


From d4d8c04f06e4468ee993a549d371b945c3625e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:27 +0000
Subject: [PATCH 33/38] fix: report an unusable AES key in the graphical tool
 instead of verifying forever

---
 rktool.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rktool.py b/rktool.py
index 7531c6a..d43f74e 100755
--- a/rktool.py
+++ b/rktool.py
@@ -566,21 +566,21 @@ def verifyDEP_prepare_Task(dep, store, key, nprocs):
         inargs = verify.prepareVerificationTuples(pkgs, key, None, rState,
                 verification_state.UsedReceiptIdsUnique)
         return None, inargs
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_main_Task(args):
     try:
         rState, usedRecIds = verify.verifyGroupsWithVerifiersTuple(args)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_finalize_Task(outUsedRecIds, usedRecIds):
     try:
         usedRecIds.merge(outUsedRecIds)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 # TODO: add a visual way to determine where an error happened?
-- 
2.43.0


From b456c4b1d962cdf20ccbc16430babcc76909b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:27 +0000
Subject: [PATCH 34/38] fix: report defective key stores in the graphical tool

---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index d43f74e..f882e8b 100755
--- a/rktool.py
+++ b/rktool.py
@@ -943,7 +943,7 @@ class KeyStoreWidget(BoxLayout):
 
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError,
-                configparser.Error) as e:
+                key_store.KeyStoreException) as e:
             displayError(e)
         except KeyError:
             displayError(_("Malformed crypto container"))
-- 
2.43.0


From b254a5c6e0a4e9a195c175dd38715fd3251f1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:27 +0000
Subject: [PATCH 35/38] fix: report containers without a usable AES key in the
 graphical tool

---
 rktool.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rktool.py b/rktool.py
index f882e8b..dd0f26c 100755
--- a/rktool.py
+++ b/rktool.py
@@ -245,6 +245,12 @@ class ViewReceiptItem(GridLayout, SelectableView):
     item_name = ObjectProperty(None)
     item_value = ObjectProperty(None)
 
+def getB64KeyFromJson(json):
+    b64Key = json["base64AESKey"]
+    # Anything that is no text is no key.
+    b64Key.encode('utf-8')
+    return b64Key
+
 def verifyReceiptTask(rec, prefix, store):
     try:
         rv = verify_receipt.ReceiptVerifier.fromKeyStore(store)
@@ -385,14 +391,14 @@ class ViewReceiptWidget(BoxLayout):
             with open(full) as f:
                 if full.endswith(".json"):
                     jsonAES = utils.readJsonStream(f)
-                    key = jsonAES["base64AESKey"]
+                    key = getB64KeyFromJson(jsonAES)
                 else:
                     key = f.read()
 
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError) as e:
             displayError(e)
-        except KeyError:
+        except (AttributeError, KeyError, TypeError):
             displayError(_("No AES key in crypto container"))
 
         self.dismissPopup()
@@ -796,14 +802,14 @@ class VerifyDEPWidget(BoxLayout):
             with open(full) as f:
                 if full.endswith(".json"):
                     jsonAES = utils.readJsonStream(f)
-                    self.aesInput.text = jsonAES["base64AESKey"]
+                    self.aesInput.text = getB64KeyFromJson(jsonAES)
                 else:
                     self.aesInput.text = f.read()
 
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError) as e:
             displayError(e)
-        except KeyError:
+        except (AttributeError, KeyError, TypeError):
             displayError(_("No AES key in crypto container"))
 
         self.dismissPopup()
-- 
2.43.0


From 2bcfee0e6604dd59a885647b883e694ad4fb2c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 36/38] fix: report answers without a receipt as failed
 requests

---
 librksv/url_receipt_helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/librksv/url_receipt_helpers.py b/librksv/url_receipt_helpers.py
index 61547e3..e975b34 100644
--- a/librksv/url_receipt_helpers.py
+++ b/librksv/url_receipt_helpers.py
@@ -26,10 +26,15 @@ def getBasicCodeFromURL(url):
     the given URL.
     :param url: The URL as a string.
     :return: The basic code representation as a string.
+    :throws: RequestException
     """
     r = requests.get(url)
     r.raise_for_status()
-    return r.json()['code']
+    try:
+        return r.json()['code']
+    except (KeyError, TypeError, ValueError):
+        raise requests.exceptions.RequestException(
+                'No receipt in response.', response=r)
 
 urlHashRegex = re.compile(
         r'(?<![A-Za-z0-9_-])[A-Za-z0-9_-]{11}(?![A-Za-z0-9_-])')
-- 
2.43.0


From 360f5ec9490590315f76a5e35a2b924116b78f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 37/38] fix: show the result of a DEP verification in the main
 thread of the graphical tool

---
 rktool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rktool.py b/rktool.py
index dd0f26c..d93ec47 100755
--- a/rktool.py
+++ b/rktool.py
@@ -720,6 +720,7 @@ class VerifyDEPWidget(BoxLayout):
             App.get_running_app().pool.map_async(verifyDEP_main_Task,
                     result[1], callback = self.verifyDEP_main_Cb)
 
+    @mainthread
     def verifyDEP_main_Cb(self, result):
         if not self._verifying:
             return
-- 
2.43.0


From 801b928b9f8d6913194e32ab1c3d546d3dd5c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:51 +0000
Subject: [PATCH 38/38] fix: verify with the key store as it was when the
 verification was started

---
 rktool.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rktool.py b/rktool.py
index d93ec47..77834d6 100755
--- a/rktool.py
+++ b/rktool.py
@@ -23,6 +23,7 @@ from builtins import range
 import kivy
 kivy.require('1.9.0')
 
+import copy
 import os
 import json
 
@@ -145,7 +146,6 @@ if __use_threads:
             _async_raise( self._get_my_tid(), exctype )
 
     # original work starts here, donut steel
-    import copy
 
     def __thread_apply__(f, args, callback):
         try:
@@ -354,7 +354,8 @@ class ViewReceiptWidget(BoxLayout):
 
         App.get_running_app().pool.apply_async(verifyReceiptTask,
                 (self._receipt, self._algorithmPrefix,
-                    App.get_running_app().keyStore), callback=self.verifyCb)
+                    App.get_running_app().copyKeyStore()),
+                callback=self.verifyCb)
 
     @mainthread
     def verifyCb(self, result):
@@ -702,7 +703,7 @@ class VerifyDEPWidget(BoxLayout):
         self.verify_button.text = _('Verifying...')
 
         App.get_running_app().pool.apply_async(verifyDEP_prepare_Task,
-                (self.dep, App.get_running_app().keyStore, key,
+                (self.dep, App.get_running_app().copyKeyStore(), key,
                     App.get_running_app().nprocs),
                 callback = self.verifyDEP_prepare_Cb)
 
@@ -999,6 +1000,10 @@ class RKToolApp(App):
         self.pool.join()
         self.pool = PoolClass(self.nprocs, workerInit)
 
+    def copyKeyStore(self):
+        # A pool pickles its arguments some time later in another thread.
+        return copy.deepcopy(self.keyStore)
+
     def on_pause(self):
         return True
 
-- 
2.43.0

