From 4e30425d7b85e6dbaff3a35819b129dbf386f930 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 01/27] fix: encode the first two sub-identifiers as 40*X + Y,
 not 40*X | Y

---
 snmp/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index aeae5cc..573a89c 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -458,7 +458,7 @@ class OBJECT_IDENTIFIER(Primitive):
             second = 0
 
         encoding = bytearray()
-        self.serializeSubIdentifier(encoding, first * 40 | second)
+        self.serializeSubIdentifier(encoding, first * 40 + second)
         for subidentifier in self.subidentifiers[2:]:
             self.serializeSubIdentifier(encoding, subidentifier)
 
-- 
2.43.0


From 7c4b9cd5982b2bfc7ff7a25e6d48fc5083624c4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 02/27] fix: reject an OID that ends in the middle of a
 sub-identifier

---
 snmp/asn1.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 573a89c..f5b711c 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -417,15 +417,18 @@ class OBJECT_IDENTIFIER(Primitive):
             raise ParseError(f"Empty {typename(cls)}") from err
 
         value = 0
+        incomplete = False
         for byte in stream:
             value |= byte & 0x7f
             if byte & 0x80:
                 value <<= 7
+                incomplete = True
             else:
                 oid.append(value)
                 value = 0
+                incomplete = False
 
-        if value:
+        if incomplete:
             raise ParseError(f"{typename(cls)} ended unexpectedly")
 
         return cls.construct(*oid)
-- 
2.43.0


From 6a55ce3b051c3603e594b7bcc6e87bfc6f4dcec6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 03/27] fix: report an index octet above 255 as an
 IndexDecodeError

---
 snmp/asn1.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index f5b711c..38c7540 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -185,14 +185,14 @@ class OCTET_STRING(Primitive):
         implied: bool = False,
     ) -> TOCTET_STRING:
         if implied:
-            data = bytes(nums)
+            octets = list(nums)
         else:
             length = next(nums)
-            data = bytes([next(nums) for _ in range(length)])
+            octets = [next(nums) for _ in range(length)]
 
         try:
-            return cls.construct(data)
-        except ParseError as err:
+            return cls.construct(bytes(octets))
+        except (ParseError, ValueError) as err:
             raise OBJECT_IDENTIFIER.IndexDecodeError(*err.args) from err
 
     @classmethod
-- 
2.43.0


From 354d35dd4c439d7c4a48326c1350badc6886a390 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 04/27] fix: report a truncated OID index field as an
 IndexDecodeError

---
 snmp/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 38c7540..a3171a0 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -334,7 +334,7 @@ class OBJECT_IDENTIFIER(Primitive):
             subidentifiers = nums
         else:
             length = next(nums)
-            subidentifiers = (next(nums) for _ in range(length))
+            subidentifiers = iter([next(nums) for _ in range(length)])
 
         try:
             return cls.construct(*subidentifiers)
-- 
2.43.0


From 50a870cb290d65a1e281137adc0f1e5ce3eb9bfa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 05/27] fix: decode an IpAddress index field, which has no
 length prefix

---
 snmp/smi.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/snmp/smi.py b/snmp/smi.py
index a4257f5..47a7d80 100644
--- a/snmp/smi.py
+++ b/snmp/smi.py
@@ -121,6 +121,14 @@ class IpAddress(OCTET_STRING):
     def asOID(self, implied: bool = False) -> Iterable[int]:
         return super().asOID(implied=True)
 
+    @classmethod
+    def fromOID(cls,
+        nums: Iterator[int],
+        implied: bool = False,
+    ) -> "IpAddress":
+        octets = iter([next(nums) for _ in range(4)])
+        return super().fromOID(octets, implied=True)
+
     @classmethod
     def construct(cls, data: Asn1Data) -> "IpAddress":
         if isinstance(data, subbytes):
-- 
2.43.0


From b714aab5126b41b068ca604c31d880ca17b6c3ac Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 06/27] fix: make the OpenSSL backend return exactly the
 processed bytes

---
 snmp/cffi/openssl.py                       | 1 +
 snmp/openssl.pyi                           | 6 ++++++
 snmp/security/usm/priv/openssl/__init__.py | 6 +++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/snmp/cffi/openssl.py b/snmp/cffi/openssl.py
index 75c441e..dd755db 100644
--- a/snmp/cffi/openssl.py
+++ b/snmp/cffi/openssl.py
@@ -14,6 +14,7 @@ typedef struct evp_cipher_ctx_st EVP_CIPHER_CTX;
 
 EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void);
 void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c);
+int EVP_CIPHER_CTX_set_padding(EVP_CIPHER_CTX *c, int pad);
 
 int EVP_EncryptInit(EVP_CIPHER_CTX *ctx, const EVP_CIPHER *type,
                     const unsigned char *key, const unsigned char *iv);
diff --git a/snmp/openssl.pyi b/snmp/openssl.pyi
index cddda38..78bf4de 100644
--- a/snmp/openssl.pyi
+++ b/snmp/openssl.pyi
@@ -30,6 +30,12 @@ class OpenSSL_LIB:
     def EVP_CIPHER_CTX_free(self, ctx: Pointer[EVP_CIPHER_CTX]) -> None:
         ...
 
+    def EVP_CIPHER_CTX_set_padding(self,
+        ctx: Pointer[EVP_CIPHER_CTX],
+        pad: int,
+    ) -> int:
+        ...
+
     def EVP_DecryptInit(self,
         ctx: Pointer[EVP_CIPHER_CTX],
         type: Pointer[EVP_CIPHER],
diff --git a/snmp/security/usm/priv/openssl/__init__.py b/snmp/security/usm/priv/openssl/__init__.py
index c80d042..1045f1e 100644
--- a/snmp/security/usm/priv/openssl/__init__.py
+++ b/snmp/security/usm/priv/openssl/__init__.py
@@ -57,6 +57,10 @@ class Envelope:
             if not self.init(ctx, self.cipher(), key, iv):
                 raise Exception("Failed to initialize cipher context")
 
+            # SNMP does its own padding, so OpenSSL must not hold back a block
+            if not lib.EVP_CIPHER_CTX_set_padding(ctx, 0):
+                raise Exception("Failed to disable padding")
+
             inl = len(data)
             outl = ffi.new("int*")
             output = self.allocateOutputBuffer(len(data), self.cipher.BLOCKLEN)
@@ -64,7 +68,7 @@ class Envelope:
             if not self.update(ctx, output, outl, data, inl):
                 raise Exception("Failed to update cipher context")
 
-            return bytes(output)
+            return bytes(output)[:outl[0]]
 
 class Decryptor(Envelope):
     ENCRYPT = False
-- 
2.43.0


From c069790330284a7bf992c7a30077212d5e054ca4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 07/27] fix: reject a DES salt of the wrong length

---
 snmp/security/usm/priv/openssl/des.py      |  9 ++++++++-
 snmp/security/usm/priv/pycryptodome/des.py | 10 +++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 902df86..a85547d 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -26,6 +26,9 @@ class DesCbc(PrivProtocol):
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
 
     def computeIV(self, salt: bytes) -> bytes:
+        if len(salt) != self.BLOCKLEN:
+            raise ValueError("Invalid salt")
+
         return bytes(a ^ b for a, b in zip(self.preIV, salt))
 
     def pad(self, data: bytes) -> bytes:
@@ -42,7 +45,11 @@ class DesCbc(PrivProtocol):
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
-        iv = self.computeIV(salt)
+        try:
+            iv = self.computeIV(salt)
+        except ValueError as err:
+            raise DecryptionError(err) from err
+
         return Decryptor(self.CIPHER).decrypt(data, self.key, iv)
 
     def encrypt(self,
diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index fcd7e53..ac387eb 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -26,6 +26,9 @@ class DesCbc(PrivProtocol):
         self.salt = int.from_bytes(os.urandom(self.SALTLEN), self.BYTEORDER)
 
     def computeIV(self, salt: bytes) -> bytes:
+        if len(salt) != self.BLOCKLEN:
+            raise ValueError("Invalid salt")
+
         return bytes(a ^ b for a, b in zip(self.preIV, salt))
 
     def newCipher(self, iv: bytes) -> CbcMode:
@@ -45,7 +48,12 @@ class DesCbc(PrivProtocol):
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
-        return self.newCipher(self.computeIV(salt)).decrypt(self.pad(data))
+        try:
+            iv = self.computeIV(salt)
+        except ValueError as err:
+            raise DecryptionError(err) from err
+
+        return self.newCipher(iv).decrypt(self.pad(data))
 
     def encrypt(self,
         data: bytes,
-- 
2.43.0


From 32c8fa505887f3c2ed8fb0b162e486c5c9b7ce91 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 08/27] fix: do not decrypt an extra block of padding with
 pycryptodome DES

---
 snmp/security/usm/priv/pycryptodome/des.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index ac387eb..6a548cd 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -53,7 +53,7 @@ class DesCbc(PrivProtocol):
         except ValueError as err:
             raise DecryptionError(err) from err
 
-        return self.newCipher(iv).decrypt(self.pad(data))
+        return self.newCipher(iv).decrypt(data)
 
     def encrypt(self,
         data: bytes,
-- 
2.43.0


From d01d0b7434b48a9165b5b9a503a5222f358c12e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 09/27] fix: ignore a response to a discovery message that is
 below the requested security level

---
 snmp/manager/v3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 0fd666b..766cdb2 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -359,6 +359,10 @@ class Request:
         #if random.randint(1, 3) % 3 != 0:
         #    return
 
+        # Discovery messages are sent with a lower security level
+        if response.header.flags.securityLevel < self.securityLevel:
+            return
+
         if self.manager.processResponse(self, response):
             if not self.event.is_set():
                 self.response = response
-- 
2.43.0


From ea4773b1e0983f6a5e40d74a22973be45a9e8a57 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 10/27] fix: never wait for a response past the request's own
 timeout

---
 snmp/manager/v1.py  | 7 ++++---
 snmp/manager/v2c.py | 7 ++++---
 snmp/manager/v3.py  | 3 ++-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 20a7a36..0e74cf0 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -102,7 +102,8 @@ class Request(RequestHandle[Message]):
     def wait(self) -> VarBindList:
         pdu: Optional[ResponsePDU] = None
         while not self.expired:
-            timeout = self.manager.refresh()
+            remaining = self.expiration - time.time()
+            timeout = min(self.manager.refresh(), remaining)
             if self.event.wait(timeout=timeout):
                 assert self.response is not None
                 pdu = cast(ResponsePDU, self.response.pdu)
@@ -134,7 +135,7 @@ class SNMPv1Manager(Generic[T]):
         self.lock = threading.Lock()
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
-    def refresh(self) -> Optional[float]:
+    def refresh(self) -> float:
         while self.requests:
             with self.lock:
                 reference = self.requests[0]
@@ -153,7 +154,7 @@ class SNMPv1Manager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return None
+        return math.inf
 
     def sendPdu(self,
         pdu: PDU,
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index a443f28..be72b89 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -102,7 +102,8 @@ class Request(RequestHandle[Message]):
     def wait(self) -> VarBindList:
         pdu: Optional[ResponsePDU] = None
         while not self.expired:
-            timeout = self.manager.refresh()
+            remaining = self.expiration - time.time()
+            timeout = min(self.manager.refresh(), remaining)
             if self.event.wait(timeout=timeout):
                 assert self.response is not None
                 pdu = cast(ResponsePDU, self.response.pdu)
@@ -134,7 +135,7 @@ class SNMPv2cManager(Generic[T]):
         self.lock = threading.Lock()
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
-    def refresh(self) -> Optional[float]:
+    def refresh(self) -> float:
         while self.requests:
             with self.lock:
                 reference = self.requests[0]
@@ -153,7 +154,7 @@ class SNMPv2cManager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return None
+        return math.inf
 
     def sendPdu(self,
         pdu: AnyPDU,
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 766cdb2..1883c15 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -417,7 +417,8 @@ class Request:
         try:
             pdu = None
             while not self.expired:
-                timeout = self.manager.refresh()
+                remaining = self.expiration - time.time()
+                timeout = min(self.manager.refresh(), remaining)
 
                 try:
                     ready = self.event.wait(timeout=timeout)
-- 
2.43.0


From b0e991cf80e5d02f2064396ddf9dda0848897a0e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 11/27] fix: check for pending requests under the lock that
 guards them

---
 snmp/manager/v1.py  | 7 ++++---
 snmp/manager/v2c.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 0e74cf0..cf83bf7 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -136,8 +136,11 @@ class SNMPv1Manager(Generic[T]):
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
     def refresh(self) -> float:
-        while self.requests:
+        while True:
             with self.lock:
+                if not self.requests:
+                    return math.inf
+
                 reference = self.requests[0]
                 request = reference()
 
@@ -154,8 +157,6 @@ class SNMPv1Manager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return math.inf
-
     def sendPdu(self,
         pdu: PDU,
         handle: Request,
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index be72b89..7b84ba2 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -136,8 +136,11 @@ class SNMPv2cManager(Generic[T]):
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
     def refresh(self) -> float:
-        while self.requests:
+        while True:
             with self.lock:
+                if not self.requests:
+                    return math.inf
+
                 reference = self.requests[0]
                 request = reference()
 
@@ -154,8 +157,6 @@ class SNMPv2cManager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return math.inf
-
     def sendPdu(self,
         pdu: AnyPDU,
         handle: Request,
-- 
2.43.0


From f4a0030e8ae60b40b689230848ebdf2b1c9d0499 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 12/27] fix: schedule a request after its refresh time has been
 set

---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index cf83bf7..08cc770 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -186,8 +186,8 @@ class SNMPv1Manager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 7b84ba2..67ffd96 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -186,8 +186,8 @@ class SNMPv2cManager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
-- 
2.43.0


From 3a3d6abcf111d3ac04cfd43ee8e95a9053ddf074 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 13/27] fix: raise ValueError for an unsupported transport
 domain

---
 snmp/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/engine.py b/snmp/engine.py
index b47301f..41ff0e0 100644
--- a/snmp/engine.py
+++ b/snmp/engine.py
@@ -189,7 +189,7 @@ class Engine:
         try:
             transportClass = self.TRANSPORTS[domain]
         except KeyError as err:
-            errmsg = f"Unsupported transport domain: {transportClass.DOMAIN}"
+            errmsg = f"Unsupported transport domain: {domain}"
             raise ValueError(errmsg) from err
 
         address = transportClass.normalizeAddress(
-- 
2.43.0


From ea6c515eb2f201a8a4cbcfb36808962450cdbaf2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 14/27] fix: keep listening when a socket read fails

---
 snmp/transport/generic/udp.py | 6 +++++-
 snmp/transport/posix/udp.py   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index 1441905..dd58f97 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -52,7 +52,11 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         data, addr = self.r.recvfrom(len(STOPMSG))
                         done = addr == self.w.getsockname() and data == STOPMSG
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except OSError:
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index 75fe31f..f0d5afd 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -34,7 +34,11 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         os.read(fd, 1)
                         done = True
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except OSError:
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
-- 
2.43.0


From 2a710a01a3bd25fe9e281d2a3ac0862d9ced3055 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 15/27] fix: do not close the stop pipe twice

---
 snmp/transport/posix/udp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index f0d5afd..6f1c305 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -48,7 +48,9 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
         for sock in self.sockets.values():
             sock.close()
 
-        os.close(self.w)
-        os.close(self.r)
+        if self.w >= 0:
+            os.close(self.w)
+            os.close(self.r)
+            self.r = self.w = -1
 
 UdpMultiplexor = PosixUdpMultiplexor
-- 
2.43.0


From 25bff53312676e3ef0de1c00dc6a1a9281b7f883 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 16/27] fix: do not let concurrent requests encrypt with the
 same salt

---
 snmp/security/usm/implementation.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/snmp/security/usm/implementation.py b/snmp/security/usm/implementation.py
index 84068b5..029341a 100644
--- a/snmp/security/usm/implementation.py
+++ b/snmp/security/usm/implementation.py
@@ -131,11 +131,15 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
                     raise InvalidSecurityLevel(errmsg)
 
                 assert message.scopedPDU is not None
-                ciphertext, msgPrivacyParameters = user.priv.encrypt(
-                    message.scopedPDU.encode(),
-                    snmpEngineBoots,
-                    snmpEngineTime,
-                )
+                plaintext = message.scopedPDU.encode()
+
+                # Prevent two threads from encrypting with the same salt
+                with self.userLock:
+                    ciphertext, msgPrivacyParameters = user.priv.encrypt(
+                        plaintext,
+                        snmpEngineBoots,
+                        snmpEngineTime,
+                    )
 
                 message.encryptedPDU = OctetString(ciphertext)
 
-- 
2.43.0


From 67ad4c1602a51bebcd28c1b605800c246ff29690 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 17/27] fix: allocate v3 request IDs under the manager's lock

---
 snmp/manager/v3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 1883c15..4fed7eb 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -658,7 +658,9 @@ class SNMPv3UsmManager(Generic[T]):
         if wait is None:
             wait = self.autowait
 
-        pdu.requestID = self.generateRequestID()
+        with self.lock:
+            pdu.requestID = self.generateRequestID()
+
         request = Request(pdu, self, user, securityLevel, **kwargs)
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
-- 
2.43.0


From c9e14c293dead5abaebf28b2197a49207f2abd0c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 18/27] fix: reject negative engine boots and engine time in a
 received message

---
 snmp/security/usm/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snmp/security/usm/parameters.py b/snmp/security/usm/parameters.py
index 7b7f7d7..06a248b 100644
--- a/snmp/security/usm/parameters.py
+++ b/snmp/security/usm/parameters.py
@@ -149,6 +149,11 @@ class UsmSecurityParameters(Sequence):
 
         salt = OctetString.decode(ptr)
 
+        if engineBoots.value < 0:
+            raise ParseError("msgAuthoritativeEngineBoots may not be negative")
+        elif engineTime.value < 0:
+            raise ParseError("msgAuthoritativeEngineTime may not be negative")
+
         return cls(
             engineID.data,
             engineBoots.value,
-- 
2.43.0


From 64018a0759d7205d5da9e093d2a5f4978a0a9380 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 19/27] fix: keep the estimated engine time within the range of
 the wire field

---
 snmp/security/usm/timekeeper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snmp/security/usm/timekeeper.py b/snmp/security/usm/timekeeper.py
index 56d9c07..3282047 100644
--- a/snmp/security/usm/timekeeper.py
+++ b/snmp/security/usm/timekeeper.py
@@ -92,7 +92,8 @@ class TimeKeeper:
         except KeyError:
             return 0, 0
 
-        return et.snmpEngineBoots, et.snmpEngineTime(timestamp)
+        engineTime = et.snmpEngineTime(timestamp)
+        return et.snmpEngineBoots, min(max(engineTime, 0), (1 << 31) - 1)
 
     def hint(self,
         engineID: bytes,
-- 
2.43.0


From d2b4d5ce7be3222bd6998bb473872eb77eb72803 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 20/27] fix: always move the next retransmission past the
 current time

When a refresh ran exactly at its due time, zero periods had elapsed, so the
due time stayed the same and the message was sent again and again until the
clock moved.
---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 snmp/manager/v3.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 08cc770..21ff5ed 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 67ffd96..ea2dac2 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 4fed7eb..1b523f2 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -401,7 +401,7 @@ class Request:
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
-- 
2.43.0


From d213fbbe2c99e7d8e9a20609253c6e10d1300cd8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 21/27] fix: never take a response to a discovery message for
 the result of a request

---
 snmp/manager/v3.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 1b523f2..40ea257 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -224,8 +224,13 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
         usmStatsDecryptionErrors:       DecryptionErrorReport,
     }
 
-    def __init__(self, request: "Request", synchronized: SharedBool) -> None:
+    def __init__(self,
+        request: "Request",
+        synchronized: SharedBool,
+        discovery: bool,
+    ) -> None:
         self.request = weakref.proxy(request)
+        self.discovery = discovery
         self.messageID: Optional[int] = None
         self.callback: Optional[Callable[[int], None]] = None
 
@@ -262,6 +267,9 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
 
                 auth = response.header.flags.authFlag
                 self.request.processException(exception, auth)
+        elif self.discovery:
+            errmsg = "Received a ResponsePDU in response to a discovery message"
+            raise DiscoveryError(errmsg)
         else:
             self.request.processResponse(cast(ResponsePDU, response))
 
@@ -385,7 +393,8 @@ class Request:
         else:
             self.engineID = engineID
 
-        message = RequestMessage(self, self.synchronized)
+        discovery = pdu is not self.pdu
+        message = RequestMessage(self, self.synchronized, discovery)
         self.messages.add(message)
         self.manager.sendPdu(pdu, message, engineID, user, securityLevel)
 
-- 
2.43.0


From f0913f931a7dfbe89d350421db7432613821bb92 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 22/27] fix: do not send a deferred request that has expired
 meanwhile

---
 snmp/manager/v3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 40ea257..91df975 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -547,7 +547,7 @@ class SNMPv3UsmManager(Generic[T]):
                 reference = unsent.pop()
                 request = reference()
 
-                if request is not None:
+                if request is not None and not request.expired:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
                             request.send(self.engineID)
-- 
2.43.0


From bf3cc12ea55dd3cb3e6e8fdffa1f93b93f21d998 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:18 +0000
Subject: [PATCH 23/27] fix: take the ID of an unconfirmed SNMPv3 message under
 the cache lock

---
 snmp/message/v3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snmp/message/v3.py b/snmp/message/v3.py
index 129ce3e..2c379e6 100644
--- a/snmp/message/v3.py
+++ b/snmp/message/v3.py
@@ -626,7 +626,8 @@ class SNMPv3MessageProcessor(MessageProcessor[SNMPv3Message, AnyPDU]):
             handle.addCallback(self.uncache, msgID)
         else:
             # This feature is not yet implemented
-            msgID = next(self.generator)
+            with self.cacheLock:
+                msgID = next(self.generator)
 
         flags = MessageFlags(securityLevel, reportable)
         header = HeaderData(msgID, self.msgMaxSize, flags, securityModel)
-- 
2.43.0


From d3334a88c5fa3a180e4184e1a8cc95807d1d713f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:18 +0000
Subject: [PATCH 24/27] fix: keep listening when reading the wake-up socket
 fails

---
 snmp/transport/generic/udp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index dd58f97..6d97831 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -49,7 +49,11 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                     assert self.r is not None
                     assert self.w is not None
                     if fd == self.r.fileno():
-                        data, addr = self.r.recvfrom(len(STOPMSG))
+                        try:
+                            data, addr = self.r.recvfrom(len(STOPMSG))
+                        except OSError:
+                            continue
+
                         done = addr == self.w.getsockname() and data == STOPMSG
                 else:
                     try:
-- 
2.43.0


From 711cd747b37fefdcc4849d66358a9979b8adb874 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:07 +0000
Subject: [PATCH 25/27] fix: a subbytes whose stop precedes its start is empty,
 as the slice is

Its length was negative, so len() and comparisons raised ValueError.
---
 snmp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/utils.py b/snmp/utils.py
index 8e93969..e9f4a6d 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -130,7 +130,7 @@ class subbytes:
         newstop  = base.stop  if stop  is None else base.translate(stop,  True)
 
         self._start = newstart
-        self._stop  = newstop
+        self._stop  = max(newstart, newstop)
 
     @property
     def data(self) -> bytes:
-- 
2.43.0


From 6ab33a7d8b3e07f4d23eab1e459f3e2a38127f23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:16 +0000
Subject: [PATCH 26/27] fix: slices of a subbytes with a negative step

The bounds were translated as for a positive one, so the result was empty.
---
 snmp/utils.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/snmp/utils.py b/snmp/utils.py
index e9f4a6d..900656b 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -177,13 +177,7 @@ class subbytes:
         if isinstance(key, int):
             key = self.translate(key)
         elif isinstance(key, slice):
-            start, stop = key.start, key.stop
-
-            key = slice(
-                self.start if start is None else self.translate(start, True),
-                self.stop  if stop  is None else self.translate(stop, True),
-                key.step
-            )
+            return self.data[self.start:self.stop][key]
 
         return self.data[key]
 
-- 
2.43.0


From 5bfdb626a36edf9efe4641a51948bd22e3f013f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:21 +0000
Subject: [PATCH 27/27] fix: MessageFlags.original raises AttributeError

---
 snmp/message/v3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snmp/message/v3.py b/snmp/message/v3.py
index 2c379e6..18cdca6 100644
--- a/snmp/message/v3.py
+++ b/snmp/message/v3.py
@@ -94,6 +94,10 @@ class MessageFlags(OctetString):
         reportable = (byte & cls.REPORTABLE_FLAG != 0)
         return cls(securityLevel, reportable)
 
+    @property
+    def original(self) -> bytes:
+        return self.data
+
     @property
     def data(self) -> bytes:
         byte = 0
-- 
2.43.0

