From b57ddcffbd7e9aacca1c11fac4fda07088874f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 1/9] fix: encode_hex failed with IndexError on empty values

The comparison of an integer with a byte string never held, it only
made empty (and it would have made one byte long) values fail.
---
 golem_messages/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/golem_messages/utils.py b/golem_messages/utils.py
index 2e867d1..6c1e493 100644
--- a/golem_messages/utils.py
+++ b/golem_messages/utils.py
@@ -22,8 +22,6 @@ def encode_hex(b):
     if isinstance(b, str):
         b = bytes(b, 'utf-8')
     if isinstance(b, (bytes, bytearray)):
-        if b[0] == b'0' and b[1] == b'x':
-            b = b[2:]
         return str(binascii.hexlify(b), 'utf-8')
     raise TypeError('Value must be an instance of str or bytes')
 
-- 
2.43.0


From 785837f7c7f897db95d8bdc862ba1171091644c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 2/9] fix: StartSessionResponse lost its connection id on
 reception

---
 golem_messages/message/tasks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 7ddc479..183b83b 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -723,8 +723,7 @@ class StartSessionResponse(base.Message):
            an answer for a request to start task session
         :param uuid conn_id: connection id for reference
         """
-        self.conn_id = conn_id
-        super().__init__(**kwargs)
+        super().__init__(conn_id=conn_id, **kwargs)
 
 
 @library.register(TASK_MSG_BASE + 26)
-- 
2.43.0


From 4bf67131e7bdb9b24d85e4229deb2c95364de812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 3/9] fix: nested messages of another type were taken for the
 declared one

---
 golem_messages/message/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index e939d2b..ec98603 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -354,15 +354,23 @@ class Message:
             return None
         try:
             nested = datastructures.NestedMessage(*value)
+            header = datastructures.MessageHeader(*nested.header)
         except TypeError:
             raise exceptions.FieldError(
                 "Invalid nested message format",
                 field=key,
                 value=value,
             )
+        class_ = slot_definition.get_class()
+        if header.type_ != library.get_type(class_):
+            raise exceptions.FieldError(
+                "Should be instance of {}".format(slot_definition.klass),
+                field=key,
+                value=value,
+            )
         try:
-            result = slot_definition.get_class()(
-                header=datastructures.MessageHeader(*nested.header),
+            result = class_(
+                header=header,
                 sig=nested.sig,
                 slots=nested.slots,
             )
-- 
2.43.0


From 6d6c739e37d69a77a13321cf111ea4e768d999f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 4/9] fix: malformed messages made other than message errors
 escape

---
 golem_messages/message/base.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index ec98603..8e7b6e1 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -451,12 +451,17 @@ class Message:
 
         class_ = library[header.type_]
         logger.debug('Deserialization class found. class=%r', class_)
-        return class_.deserialize_with_header(
-            header,
-            data,
-            decrypt_func,
-            sender_public_key=sender_public_key,
-        )
+        try:
+            return class_.deserialize_with_header(
+                header,
+                data,
+                decrypt_func,
+                sender_public_key=sender_public_key,
+            )
+        except exceptions.MessageError:
+            raise
+        except Exception as e:
+            raise exceptions.MessageError("Invalid message") from e
 
     @classmethod
     def deserialize_with_header(
-- 
2.43.0


From f33edf9523deea788536bfbf2e9b465141d49f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 5/9] fix: ephemeral keys of known recipients were never
 replaced

---
 golem_messages/cryptography.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/golem_messages/cryptography.py b/golem_messages/cryptography.py
index 20f3152..13d79bb 100644
--- a/golem_messages/cryptography.py
+++ b/golem_messages/cryptography.py
@@ -254,7 +254,6 @@ class ECIESKeyManager:
 
         return enc_key, mac_key
 
-    @lru_cache(maxsize=1024)
     def get_ephem_key(self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         """
         Get ephemeral elliptic curve key and derived keys for encryption and
@@ -266,9 +265,13 @@ class ECIESKeyManager:
             - public key with leading '\x04' byte (65 bytes)
         """
         if self.last_cleanup_time < time.time() - self.timeout:
-            ECIESKeyManager.get_ephem_key.cache_clear()
+            ECIESKeyManager._make_ephem_key.cache_clear()
             self.last_cleanup_time = time.time()
 
+        return self._make_ephem_key(raw_pubkey)
+
+    @lru_cache(maxsize=1024)
+    def _make_ephem_key(self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         ephem = HashablePrivateKey()
         ephem_raw_pubkey = ephem.public_key.format(compressed=False)
         pubkey = PublicKey(b'\x04' + raw_pubkey)
-- 
2.43.0


From 5dd41b6e474d8ef2113ce53a19ace1d35e3462c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 6/9] fix: an unknown file category raised a TypeError

---
 golem_messages/message/concents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/message/concents.py b/golem_messages/message/concents.py
index e198544..2f12746 100644
--- a/golem_messages/message/concents.py
+++ b/golem_messages/message/concents.py
@@ -169,7 +169,7 @@ class FileTransferToken(base.Message):
         }
 
         def validate_category(self, value):
-            if value not in self.Category:
+            if value not in list(self.Category):
                 raise exceptions.FieldError(
                     "`category` must be one of %s, got: " % [
                         c for c in self.Category],
-- 
2.43.0


From 4922019d4dc199e24b7e5504eef06cddb2dcce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 7/9] fix: reporting a malformed promissory note signature
 failed

---
 golem_messages/datastructures/promissory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/datastructures/promissory.py b/golem_messages/datastructures/promissory.py
index 1fd792b..26fbd90 100644
--- a/golem_messages/datastructures/promissory.py
+++ b/golem_messages/datastructures/promissory.py
@@ -96,7 +96,7 @@ class PromissoryNote:
                 "The provided promissory note sig: `{}` has wrong type. "
                 "Must be a tuple with format: {}".format(
                     promissory_note_sig,
-                    PromissoryNoteSig._field_types,  # noqa pylint: disable=protected-access
+                    PromissoryNoteSig.__annotations__,  # noqa pylint: disable=protected-access
                 )
             ) from e
 
-- 
2.43.0


From b1db4d2cf0f5bc9500383e4810c30d642fe7a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 8/9] fix: a rejection without a reason failed the requestor
 check

---
 golem_messages/message/tasks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 183b83b..312ed8f 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -674,6 +674,8 @@ class SubtaskResultsRejected(TaskMessage, base.AbstractReasonMessage):
         :raises: `exceptions.ValidationError`
         :return: bool
         """
+        self.is_valid()
+
         concent = self.report_computed_task.task_to_compute.concent_enabled
         allowed_reasons = self.REQUESTOR_REASONS_ALLOWED[
             'concent' if concent else 'no_concent'
@@ -685,7 +687,7 @@ class SubtaskResultsRejected(TaskMessage, base.AbstractReasonMessage):
                 f"when concent_enabled={concent}."
             )
 
-        return self.is_valid()
+        return True
 
 
 @library.register(TASK_MSG_BASE + 15)
-- 
2.43.0


From 7b5b03db848bd0862b03540cdc83ddce99c08a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 9/9] fix: refuse payloads that leave out a required nested
 message

---
 golem_messages/message/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 8e7b6e1..e928d1e 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -512,6 +512,9 @@ class Message:
                 value = slots_dict[name]
             except KeyError:
                 value = None
+                if slots is not None and name in self.MSG_SLOTS:
+                    # left out is as good as None, where that is allowed
+                    self.deserialize_message(name, (False, None))
             else:
                 value = self.deserialize_slot(name, value)
             setattr(self, name, value)
-- 
2.43.0

