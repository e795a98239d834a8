From bbd1a70fd2e16d36533c77466fb28fce1476ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 01/18] fix: requests carry 16-bit addresses in little-endian
 order, as they are decoded

---
 elgas/frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/frames.py b/elgas/frames.py
index f05abdd..3664b64 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -33,9 +33,9 @@ class Request:
         out.append(self.TYPE)
         out.append(self.service)
         out.extend(self.length.to_bytes(2, "little"))
-        out.extend(self.destination_address_1.to_bytes(2, "big"))
+        out.extend(self.destination_address_1.to_bytes(2, "little"))
         out.append(self.destination_address_2)
-        out.extend(self.source_address_1.to_bytes(2, "big"))
+        out.extend(self.source_address_1.to_bytes(2, "little"))
         out.append(self.source_address_2)
         out.extend(self.data)
         redundancy_source = out[1:]
-- 
2.43.0


From 5253e328afdfeef4780566fd4062bea30ed0dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 02/18] fix: use all four bytes of the oldest record id in
 archive responses

---
 elgas/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/application.py b/elgas/application.py
index 6c84247..d10f0cf 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -253,7 +253,7 @@ class ReadArchiveByTimeResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
@@ -296,7 +296,7 @@ class ReadArchiveResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
-- 
2.43.0


From 4b3102cc9a1409a1303848f748883624d837b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 03/18] fix: write time response belongs to the write time
 service

---
 elgas/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/application.py b/elgas/application.py
index d10f0cf..57c993c 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -160,7 +160,7 @@ class WriteTimeResponse:
 
     service: ClassVar[
         constants.ServiceNumber
-    ] = constants.ServiceNumber.READ_DEVICE_TIME
+    ] = constants.ServiceNumber.WRITE_DEVICE_TIME
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
-- 
2.43.0


From 7f184741d3288bd8e644dd215363bf9c0d770bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 04/18] fix: register the correction counter in the parameter
 factories

---
 elgas/parameters/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/parameters/factory.py b/elgas/parameters/factory.py
index 6a86d73..6f456cf 100644
--- a/elgas/parameters/factory.py
+++ b/elgas/parameters/factory.py
@@ -33,6 +33,8 @@ from elgas.parameters.difference_counter import (
 from elgas.parameters.energy import Energy, EnergySchema, ErrorEnergy, ErrorEnergySchema
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.parameters.error_counter import (
+    CorrectionCounter,
+    CorrectionCounterSchema,
     DoubleErrorCounter,
     DoubleErrorCounterSchema,
     ErrorCounter,
@@ -95,6 +97,7 @@ class ParameterFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounter,
         ParameterObjectType.COMPRESSIBILITY: Compressibility,
         ParameterObjectType.TIME_WINDOW: TimeWindow,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounter,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounter,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounter,
         ParameterObjectType.DIAGNOSTICS: Diagnostics,
@@ -142,6 +145,7 @@ class ParameterSchemaFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounterSchema,
         ParameterObjectType.COMPRESSIBILITY: CompressibilitySchema,
         ParameterObjectType.TIME_WINDOW: TimeWindowSchema,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounterSchema,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounterSchema,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounterSchema,
         ParameterObjectType.DIAGNOSTICS: DiagnosticsSchema,
-- 
2.43.0


From 72ca995cdb9c18b9d099b3355b93a27166c93bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 05/18] fix: difference base counter can be decoded and loaded

---
 elgas/parameters/difference_counter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/difference_counter.py b/elgas/parameters/difference_counter.py
index 3938125..df46928 100644
--- a/elgas/parameters/difference_counter.py
+++ b/elgas/parameters/difference_counter.py
@@ -83,7 +83,7 @@ class DifferenceCounter:
         )
 
 
-class DifferenceBaseCounter:
+class DifferenceBaseCounter(DifferenceCounter):
     object_type: ClassVar[
         ParameterObjectType
     ] = ParameterObjectType.DIFFERENCE_BASE_COUNTER
-- 
2.43.0


From f2db6ca55a36e48ef3fd10a75c0364f9c3d07c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 06/18] fix: modem, set point and error standard counter
 schemas load their objects

---
 elgas/parameters/error_standard_counter.py | 5 +++++
 elgas/parameters/modem.py                  | 5 +++++
 elgas/parameters/setpoint.py               | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/elgas/parameters/error_standard_counter.py b/elgas/parameters/error_standard_counter.py
index 3609bbb..72a1df4 100644
--- a/elgas/parameters/error_standard_counter.py
+++ b/elgas/parameters/error_standard_counter.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -98,3 +99,7 @@ class ErrorStandardCounterSchema(marshmallow.Schema):
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
     address_in_billing_archive_record = marshmallow.fields.Integer(required=True)
     decimals = marshmallow.fields.Integer(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return ErrorStandardCounter(**data)
diff --git a/elgas/parameters/modem.py b/elgas/parameters/modem.py
index ad12bb3..aa3041e 100644
--- a/elgas/parameters/modem.py
+++ b/elgas/parameters/modem.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import parse_ip_address, pop_many, pretty_text
@@ -116,3 +117,7 @@ class ModemSchema(marshmallow.Schema):
     transition_into_command_mode = marshmallow.fields.String(required=True)
     pin = marshmallow.fields.String(required=True)
     owner_sim_number = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return Modem(**data)
diff --git a/elgas/parameters/setpoint.py b/elgas/parameters/setpoint.py
index 3bf8454..cce3f0a 100644
--- a/elgas/parameters/setpoint.py
+++ b/elgas/parameters/setpoint.py
@@ -3,6 +3,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -97,3 +98,7 @@ class SetPointSchema(marshmallow.Schema):
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return SetPoint(**data)
-- 
2.43.0


From b7e42518d9e69df719330ea81ef910c0e387ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 07/18] fix: flow rate schema allows absent decimals

---
 elgas/parameters/flow_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/flow_rate.py b/elgas/parameters/flow_rate.py
index c227a4a..503e19f 100644
--- a/elgas/parameters/flow_rate.py
+++ b/elgas/parameters/flow_rate.py
@@ -98,7 +98,7 @@ class FlowRateSchema(marshmallow.Schema):
     error_bit_order_in_data_archive = marshmallow.fields.Integer(required=True)
     address_in_daily_archive_record = marshmallow.fields.Integer(required=True)
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
-    decimals = marshmallow.fields.Integer(required=True)
+    decimals = marshmallow.fields.Integer(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From 4f234ff01403ac400288c4848b430f30ae62615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 08/18] fix: device error log texts are strings in its schema

---
 elgas/parameters/device_error.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index 19343ff..aabd5ee 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -85,8 +85,8 @@ class DeviceErrorSchema(marshmallow.Schema):
     error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
     error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
+    text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
+    text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From fc48d8d6986d349fc88c26a7e6933cd05a8f3041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 09/18] fix: an error reply with several error bits set raises
 instead of passing as a response

---
 elgas/connection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 3dffd59..d8aafca 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -47,21 +47,21 @@ def create_cipher_context(
 
 def raise_error(data: bytes):
     error = data[0]
-    if error == 0b00000001:
+    if error & 0b00000001:
         raise exceptions.WrongPasswordError()
-    elif error == 0b00000010:
+    elif error & 0b00000010:
         raise exceptions.SettingArchiveFull()
-    elif error == 0b00000100:
+    elif error & 0b00000100:
         raise exceptions.SwitchOff()
-    elif error == 0b00001000:
+    elif error & 0b00001000:
         raise exceptions.BlockedBuffer()
-    elif error == 0b00010000:
+    elif error & 0b00010000:
         raise exceptions.DataError()
-    elif error == 0b00100000:
+    elif error & 0b00100000:
         raise exceptions.CipherKeyError()
-    elif error == 0b01000000:
+    elif error & 0b01000000:
         raise exceptions.WrongEncryptionKeysError()
-    elif error == 0b10000000:
+    elif error & 0b10000000:
         raise exceptions.WriteError()
 
 
-- 
2.43.0


From 667cf660aa28db3eb26c75805f56af491f7300b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 10/18] fix: a request that can not be serialised leaves the
 connection state unchanged

---
 elgas/connection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index d8aafca..e63e016 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -108,7 +108,16 @@ class ElgasConnection:
     def send(self, event) -> bytes:
 
         LOG.debug("Sending request PDU", pdu=event)
+        previous_state = self.elgas_state.current_state
         self.elgas_state.process_event(event)
+        try:
+            return self._to_wire(event)
+        except Exception:
+            # Nothing was sent so no response can be awaited.
+            self.elgas_state.current_state = previous_state
+            raise
+
+    def _to_wire(self, event) -> bytes:
         application_data = event.to_bytes()
 
         if self.cipher_context:
-- 
2.43.0


From e41779d60b40c7d5d6b374c90d5c23aa7fa92d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 11/18] fix: connection accepts a new request after the device
 answered with an error

---
 elgas/connection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index e63e016..94359c9 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -193,6 +193,11 @@ class ElgasConnection:
             if len(response.data) == 1:
                 raise_error(response.data)
 
+        except exceptions.ElgasError:
+            # The device has answered, a new request can be sent.
+            self.elgas_state.current_state = state.IDLE
+            raise
+
         except ValueError:
             LOG.debug("Cannot interpret data as frame. Need more data")
             return state.NEED_DATA
-- 
2.43.0


From 8970aecb078650f2c9815efd7fd2303ef56719f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 12/18] fix: data that can not be interpreted is removed from
 the receive buffer

---
 elgas/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index 94359c9..ea09c52 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -181,6 +181,8 @@ class ElgasConnection:
             return state.NEED_DATA
 
         data = self.buffer[:end_char_index]
+        # Consumed whatever it turns out to be, or it would be examined forever.
+        self.buffer = self.buffer[end_char_index:]
         try:
             response = frames.ResponseFactory.from_bytes(utils.return_characters(data))
 
-- 
2.43.0


From c226c8c04c1d07de69974e08a7b735c38e9152ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 13/18] fix: receiving raises when the peer has closed or the
 read timed out instead of looping forever

---
 elgas/transport.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 3c76404..b166450 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -147,7 +147,10 @@ class BlockingTcpTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.tcp_socket.recv(amount - len(data))
+            chunk = self.tcp_socket.recv(amount - len(data))
+            if not chunk:
+                raise exceptions.CommunicationError("Connection closed by peer")
+            data += chunk
 
         return data
 
@@ -250,7 +253,10 @@ class SerialTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.serial_port.read(amount - len(data))
+            chunk = self.serial_port.read(amount - len(data))
+            if not chunk:
+                raise exceptions.CommunicationError("Timeout waiting for data")
+            data += chunk
 
         return data
 
-- 
2.43.0


From a1f102bfdd1fce1ca5e1c2b3c2ab6e75baa07e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 14/18] fix: close the TCP socket also when it can not be shut
 down

---
 elgas/transport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index b166450..aca3770 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -110,8 +110,10 @@ class BlockingTcpTransport:
         if self.tcp_socket:
             # only disconnect if there is a socket.
             try:
-                self.tcp_socket.shutdown(socket.SHUT_RDWR)
-                self.tcp_socket.close()
+                try:
+                    self.tcp_socket.shutdown(socket.SHUT_RDWR)
+                finally:
+                    self.tcp_socket.close()
             except (OSError, IOError, socket.timeout, socket.error) as e:
                 self.tcp_socket = None
                 raise exceptions.CommunicationError from e
-- 
2.43.0


From d1d53578ba426bbf4ed5f711a07ad2fc445ae1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 15/18] fix: refuse an encryption key without key id instead of
 sending plaintext

---
 elgas/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index ea09c52..c2dce42 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -37,6 +37,8 @@ def create_cipher_context(
     """
     If both encryption key and encryption key id is set then return a cipher context
     """
+    if connection.encryption_key is not None and connection.encryption_key_id is None:
+        raise ValueError("An encryption key needs an encryption key id")
     if connection.encryption_key is None or connection.encryption_key_id is None:
         return None
     else:
@@ -97,7 +99,6 @@ class ElgasConnection:
 
     encryption_key: Optional[bytes] = attr.ib(default=None)
     encryption_key_id: Optional[security.EncryptionKeyId] = attr.ib(default=None)
-    # TODO: Validate that there is an encryption key id if there is an encryption key.
 
     buffer: bytearray = attr.ib(init=False, factory=bytearray)
     elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)
-- 
2.43.0


From a0db6a655c51b74c00ca0c203813669f580b5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 16/18] fix: refuse timestamps whose year does not fit the two
 digits on the wire

---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 7845e6b..3d4b763 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -212,6 +212,8 @@ def datetime_to_bytes(timestamp: datetime) -> bytes:
     """
     Packs a datetime into a BCD encoded format
     """
+    if not 2000 <= timestamp.year <= 2099:
+        raise ValueError(f"Year {timestamp.year} can not be encoded")
     out = bytearray()
     out.extend(to_bdc(timestamp.second))
     out.extend(to_bdc(timestamp.minute))
-- 
2.43.0


From eafa804a82243cd614c98941fe546f2a49aa52fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 17/18] fix: refuse parameter records whose length does not fit
 the data

---
 elgas/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/parser.py b/elgas/parser.py
index 2c23eb5..0be88ae 100644
--- a/elgas/parser.py
+++ b/elgas/parser.py
@@ -34,6 +34,8 @@ class ScadaParameterParser:
             object_type = elgas.parameters.enumerations.ParameterObjectType(
                 working_data.pop(0)
             )
+            if length < 3 or length - 3 > len(working_data):
+                raise ValueError(f"Invalid length of parameter object: {length}")
             data = working_data[: length - 3]
             object_list.append(
                 elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
-- 
2.43.0


From 786da418f15c86007869556b374acccb5d09988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:09 +0000
Subject: [PATCH 18/18] fix: archive responses cut inside the record id were
 decoded with a wrong id

---
 elgas/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/application.py b/elgas/application.py
index 57c993c..b2cf325 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -252,6 +252,8 @@ class ReadArchiveByTimeResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Archive response is too short")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
@@ -295,6 +297,8 @@ class ReadArchiveResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Archive response is too short")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
-- 
2.43.0

