From 430cfa9cf6ec1b4e65e9ddc9511b22621b7be984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 01/26] fix: object definitions never reached the parsed
 configuration

object() returned the white space element of the sequence (None) instead of the
network/service object, so object definitions and object NAT were lost.
---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index b06e8fa..8650f57 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -159,7 +159,7 @@ class aclSemantics:
         return p
 
     def object(self, ast):
-        return ast[1]
+        return ast[2]
 
     def object_group(self, ast):
         return ast[2]
-- 
2.43.0


From 08930efdfe871b00f7cdf37dcad7af5515eed888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 02/26] fix: keep the port of 'port-object eq' members

The grammar did not name the port of the eq form, so the port group member was
Port('eq', None). Parsers regenerated with tatsu.
---
 lib/acltk/acl.bnf | 2 +-
 lib/acltk/fwsm.py | 3 ++-
 lib/acltk/ios.py  | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 33d452c..0407cb4 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -384,7 +384,7 @@ service_group_object
 	;
 
 port_group_object
-	= type:"port-object" WS op:"eq" WS port NL
+	= type:"port-object" WS op:"eq" WS port:port NL
 	| type:"port-object" WS op:"range" WS begin:port WS end:port NL
 	| type:"group-object" WS object:acl_object_group_port NL
 	| type:`None` ()
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 7740e87..57abcc5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1664,8 +1664,9 @@ class fwsmParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 706fa46..082253b 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1654,8 +1654,9 @@ class iosParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
-- 
2.43.0


From 18359010c79b068bb7e4066c501e6edd7ad1b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 03/26] fix: compare the ends of a numeric port range as
 numbers

The ends are strings, so 'range 900 1000' was refused and 'range 1000 900' accepted.
---
 lib/acltk/aclObjects.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 5602a82..a7e542a 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -902,9 +902,7 @@ class Port:
 class PortRange:
     def __init__(self, start, stop):
         try:
-            int(start)
-            int(stop)
-            assert start < stop, "last Port must be greater than first"
+            assert int(start) < int(stop), "last Port must be greater than first"
         except ValueError:
             pass
         self.start = start
-- 
2.43.0


From b100b4064d478860cbb4eb9cd305c0db165c6647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 04/26] fix: IOS wildcard masks are not netmasks

0.0.0.0 matched everything, 255.255.255.255 a single host, masks which look like a
netmask were taken for one, and numbered extended lists refused scattered masks.
---
 lib/acltk/iosSemantics.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 509449b..6a5aa88 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -18,12 +18,23 @@ class iosSemantics(aclSemantics):
     def grammar(self, ast) -> ACLConfig:
         return iosConfig(ast)
 
+    def _wildcard(self, address, wildcard, target=None) -> Union[Network, NetworkWildcard]:
+        # the ones of a wildcard mask are ignored, only a mask without zeroes after ones is a network
+        bits = int(wildcard)
+        if bits & (bits + 1) == 0:
+            return Network(address, 32 - bits.bit_length(), target)
+        return NetworkWildcard(address, wildcard)
+
+    def acl_host(self, ast):
+        # a dotted mask in an access-list is a wildcard
+        if ast.type == "network" and isinstance(ast.netmask, ipaddress.IPv4Address):
+            addr, target = self._resolve_addr(ast.address)
+            return self._wildcard(addr, ast.netmask, target)
+        return super().acl_host(ast)
+
     def ios_host(self, ast) -> Union[Network, NetworkAny, NetworkHost]:
         if ast.type == "wildcard":
-            try:
-                return Network(ast.address, ast.wildcard)
-            except:
-                return NetworkWildcard(ast.address, ast.wildcard)
+            return self._wildcard(ast.address, ast.wildcard)
         elif ast.type == "object-group":
             return ast.group
         elif ast.type == "any":
-- 
2.43.0


From 466151341139d3a8be64ff5d4fa63d93a52a3d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 05/26] fix: resolve() of rules whose access-list is bound to
 an interface

The list of bindings itself was added to the set: TypeError, unhashable type.
---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index a7e542a..ccd4000 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1305,7 +1305,7 @@ class ACLConfig:
                     if isinstance(v, TimeRange):
                         r.add(v)
                 if i.id in self.access_groups:
-                    r.add(self.access_groups[i.id])
+                    r.update(self.access_groups[i.id])
             elif isinstance(i, NATObject):
                 if i.real.src:
                     r.add(i.real.src.node)
-- 
2.43.0


From e73a10de735d23d5c00f660b9893bc3d6ba20058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 06/26] fix: wildcard addresses of another address family never
 match

The integers were compared without the IP version, and comparing two wildcards
recursed without end.
---
 lib/acltk/aclObjects.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index ccd4000..a710f09 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -474,11 +474,18 @@ class NetworkWildcard:
 
     def __and__(self, other):
         if isinstance(other, NetworkHost):
-            return int(other.address) & ~int(self.wildcard) == int(self.address) & ~int(self.wildcard)
+            return self.address.version == other.address.version and int(other.address) & ~int(
+                self.wildcard
+            ) == int(self.address) & ~int(self.wildcard)
         elif isinstance(other, Network):
-            return int(other.network.network_address) & ~int(self.wildcard) == int(self.address) & int(
-                other.network.netmask
-            ) & ~int(self.wildcard)
+            return self.address.version == other.network.version and int(other.network.network_address) & ~int(
+                self.wildcard
+            ) == int(self.address) & int(other.network.netmask) & ~int(self.wildcard)
+        elif isinstance(other, NetworkWildcard):
+            mask = ~(int(self.wildcard) | int(other.wildcard))
+            return self.address.version == other.address.version and int(self.address) & mask == int(
+                other.address
+            ) & mask
         else:
             return other & self
 
@@ -523,7 +530,7 @@ class NetworkAny4:
             else:
                 return False
         elif isinstance(other, NetworkWildcard):
-            return True
+            return self.version == other.address.version
         elif isinstance(other, NetworkAny6):
             return False
         elif isinstance(other, (NetworkAny4, NetworkAny)):
@@ -550,7 +557,7 @@ class NetworkAny6:
             else:
                 return False
         elif isinstance(other, NetworkWildcard):
-            return False
+            return self.version == other.address.version
         elif isinstance(other, NetworkAny4):
             return False
         elif isinstance(other, (NetworkAny6, NetworkAny)):
-- 
2.43.0


From 4dbff19c844352af4b3854e7a0b5dfd8d9217fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 07/26] fix: NetworkGroup.collapse() of hosts, objects and IPv6

Hosts were refused in place and objects not, a group of networks was modified in
place even without insitu, mixed IPv4/IPv6 and IPv6 networks raised.
---
 lib/acltk/aclObjects.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index a710f09..66db1f1 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -616,12 +616,12 @@ class NetworkGroup(_Group):
         :return: collapsed NetworkGroup
         """
         # expansion required?
-        if any(filter(lambda o: not isinstance(o, (Network, NetworkObject)), self.objects)):
-            if insitu:
+        if insitu:
+            if any(filter(lambda o: isinstance(o, (NetworkGroup, NetworkObject)), self.objects)):
                 raise ValueError("expansion required")
-            obj = self.expand(insitu)
-        else:
             obj = self
+        else:
+            obj = self.expand(insitu)
         return obj._collapse()
 
     def _collapse(self):
@@ -638,11 +638,14 @@ class NetworkGroup(_Group):
 
         self.objects.clear()
 
-        for h in ipaddress.collapse_addresses(addresses):
+        # IPv4 and IPv6 can not be collapsed at once
+        for h in itertools.chain.from_iterable(
+            ipaddress.collapse_addresses([i for i in addresses if i.version == v]) for v in (4, 6)
+        ):
             if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
                 raise ValueError(f"unexpected type {h}")
             if h.num_addresses > 1:
-                h_ = Network(h.network_address, h.netmask)
+                h_ = Network(h.network_address, h.prefixlen)
             else:
                 h_ = NetworkHost(h.network_address)
             self.add(h_)
-- 
2.43.0


From f47e70f907c1232e7b7b7b9e92bbbd34de242e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 08/26] fix: sort(insitu=False) of groups

Protocol and service groups have no collapse(), and collapsing a network group is
not needed (it failed or modified the group) to return a sorted copy.
---
 lib/acltk/aclObjects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 66db1f1..33730e5 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -312,7 +312,7 @@ class ProtocolGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.__class__(self.name, self.description)
 
         obj.objects = sorted(self.objects, key=ProtocolGroup.key_of)
 
@@ -670,7 +670,7 @@ class NetworkGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.__class__(self.name, self.description)
 
         obj.objects = sorted(self.objects, key=NetworkGroup.key_of)
 
@@ -743,7 +743,7 @@ class ServiceGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.__class__(self.name, self.description)
 
         obj.objects = sorted(self.objects, key=ServiceGroup.key_of)
         return obj
-- 
2.43.0


From ac003f746fd1e3e09fc372ce0ccf3fad9004145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 09/26] fix: PortUtil.getservbyname() with a protocol

str has no toupper().
---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 33730e5..533f09c 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -860,7 +860,7 @@ class PortUtil:
     @classmethod
     def getservbyname(cls, name, proto=None):
         for s in cls.services():
-            if s.name == name and (proto is None or proto.toupper() == s.protocol):
+            if s.name == name and (proto is None or proto.upper() == s.protocol):
                 return int(s.port)
         return None
 
-- 
2.43.0


From 5aa8294784e54bfc691ff087e5e7be4a1b11bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 10/26] fix: pfSense descriptions with current Python

html.parser.unescape() was removed, every configuration with an interface, alias or
description was refused.
---
 lib/acltk/pfsenseSemantics.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ea58500..6667663 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -4,7 +4,7 @@ import urllib
 import urllib.error
 import urllib.request
 import ipaddress
-import html.parser
+import html
 from acltk.aclSemantics import aclSemantics, aclParser
 from acltk.aclObjects import (
     Interface,
@@ -99,10 +99,10 @@ class pfsenseParser(aclParser):
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-                alias = html.parser.unescape(values.get("descr", alias))
+                alias = html.unescape(values.get("descr", alias))
             else:
                 details.append(
-                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr", ""))})
+                    tatsu.ast.AST(**{"type": "description", "value": html.unescape(values.get("descr", ""))})
                 )
 
             obj = Interface(alias=alias, details=details)
@@ -123,7 +123,7 @@ class pfsenseParser(aclParser):
             g = None
 
             # description is html escaped
-            values["descr"] = html.parser.unescape(values["descr"] or "")
+            values["descr"] = html.unescape(values["descr"] or "")
 
             if values["type"] == "host":
                 g = NetworkGroup(values["name"], values["descr"])
@@ -209,7 +209,7 @@ class pfsenseParser(aclParser):
                         # EXML - pfsense uses "fr{idx}" to denote the rows number
                         row = int(values["row"][2:])
                         separators[iface][row].append(
-                            ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"]))
+                            ACLCaption(bg=values["color"], text=html.unescape(values["text"]))
                         )
 
                 ifname = None
@@ -257,7 +257,7 @@ class pfsenseParser(aclParser):
             if v.tag in valueable:
                 if v.tag == "descr":
                     # text can be None
-                    values[v.tag] = html.parser.unescape(v.text or "")
+                    values[v.tag] = html.unescape(v.text or "")
                 else:
                     values[v.tag] = v.text
             elif v.tag == "log":
-- 
2.43.0


From c7ac280df784b3c8cc09ae4c7d310a80b789b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 11/26] fix: pfSense interfaces with a static address

Interface expects the elements of a parsed line, IndexError otherwise.
---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 6667663..b87a095 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -89,7 +89,7 @@ class pfsenseParser(aclParser):
             if "ipaddr" in values:
                 if values["ipaddr"] != "dhcp":
                     details = [
-                        tatsu.ast.AST(**{"type": ["ip", "address"], "value": [values["ipaddr"], values["subnet"]]})
+                        tatsu.ast.AST(**{"type": ["ip", None, "address"], "value": [values["ipaddr"], None, values["subnet"]]})
                     ]
                 else:
                     details = [tatsu.ast.AST(**{"type": "nameif", "value": values["if"]})]
-- 
2.43.0


From d3ac6007eb44956073e8590220eab452fe7b020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 12/26] fix: lookup pfSense interfaces by their internal name

A rule with the network of an optional interface was refused, and the map from
internal names used the description of the other interfaces as key.
---
 lib/acltk/pfsenseSemantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index b87a095..51edd14 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -109,7 +109,7 @@ class pfsenseParser(aclParser):
             ast.append(obj)
 
             self.interfaces[obj.alias] = obj
-            self.interface_map[obj.description] = obj.alias
+            self.interface_map[i.tag] = obj.alias
 
         return ast
 
@@ -287,7 +287,8 @@ class pfsenseParser(aclParser):
                             else:
                                 port = Port("eq", port)
                     elif n.tag == "network":
-                        address = n.text
+                        # the internal name, lookup the interface alias
+                        address = self.interface_map.get(n.text, n.text)
                         if address in self.interfaces:
                             address = NetworkInterface(self.interfaces[address].alias)
                         else:
-- 
2.43.0


From 2f2b83038c101f8b06c3f38a27f91c513c3c773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 13/26] fix: real and mapped port of object NAT

The ports are stated real first, mapped second. Both sides had the real port.
---
 lib/acltk/aclSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 8650f57..a3c2fc2 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -458,8 +458,8 @@ class aclSemantics:
             if ast.service == "dns":
                 options["dns"] = True
             elif isinstance(ast.service, Service):
-                real["service"] = Service(ast.service.protocol, None, ast.service.dst)
-                mapped["service"] = Service(ast.service.protocol, None, ast.service.src)
+                real["service"] = Service(ast.service.protocol, None, ast.service.src)
+                mapped["service"] = Service(ast.service.protocol, None, ast.service.dst)
             else:
                 raise ValueError(ast.service)
 
@@ -467,7 +467,7 @@ class aclSemantics:
             options[i] = True
 
         r = NATObject(
-            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), mapped.get("service", None)),
+            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), real.get("service", None)),
             NATMapped(
                 mapped["iface"],
                 NATMappedSource(ast.type, mapped["src"], fallback),
-- 
2.43.0


From 49893e05cd52f8ea3d1b874cfec6d39309e9d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 14/26] fix: object NAT given apart from the object definition

The real source was the empty object of the NAT statement instead of the object.
---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index a3c2fc2..2c754c7 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -153,7 +153,7 @@ class aclSemantics:
             self._learn(ast.name, p)
 
         if nat:
-            nat.real.src.node = p
+            nat.real.src.node = groups[ast.name]
             setattr(p, "nat", nat)
 
         return p
-- 
2.43.0


From 10ac0a5aa1f4f469e074c7c1f7e43e515761cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 15/26] fix: caf id in front of a block

'id A (...)' dropped the id.
---
 lib/acltk/cafSemantics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/cafSemantics.py b/lib/acltk/cafSemantics.py
index 8218116..663e70a 100644
--- a/lib/acltk/cafSemantics.py
+++ b/lib/acltk/cafSemantics.py
@@ -90,7 +90,11 @@ class RealCafSemantics:
         objects = list(filter(lambda i: i is not None, ast.objects))
 
         if len(objects) == 1 and isinstance(objects[0], cafBlock):
-            return objects[0]
+            if ast.id is None:
+                return objects[0]
+            # the id restricts the block
+            rule = ACLRule(id=ast.id, src=ACLNode(NetworkAny()), dst=ACLNode(NetworkAny()))
+            return cafBlock(cafOpIntersect(rule, objects[0]))
         ip = []
         for i in objects:
             if "ip" in i:
-- 
2.43.0


From 820f8d817fed2433a7eb0395f7501206ac40d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 16/26] fix: access-group statements are bindings of their
 access-list

Only the bindings of IOS interfaces were found when resolving a selection.
---
 lib/acltk/aclObjects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 533f09c..cf91526 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1248,6 +1248,7 @@ class ACLConfig:
                     if j.nameif == i.iface:
                         i.iface = j
                         j.access_groups[i.direction] = i
+                        self.access_groups[i.name].append(i)
                         break
             elif isinstance(i, NATObject):
                 position = 3 if ("after-auto", "after-object") & i.options.keys() else 1
-- 
2.43.0


From d62c1a35d110e4d7f3d92e708d496ee8a80ee1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 17/26] fix: access-list entries with trailing white space

---
 lib/acltk/aclSemantics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 2c754c7..78bebe5 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -358,6 +358,8 @@ class aclSemantics:
     def acl_options(self, ast):
         r = {}
         for i in ast:
+            if i is None:  # trailing white space
+                continue
             assert i.type is None or i.type in frozenset(
                 ["log", "time-range", "inactive"]
             ), f"option {i.type} is unknown"
-- 
2.43.0


From 2140f12c9ff91e64c70ef510239274cdb5ed3ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 18/26] fix: references to a service object that is defined
 again

---
 lib/acltk/aclSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 78bebe5..aa9f917 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -149,7 +149,8 @@ class aclSemantics:
         if nat is None and "nat" in ast:
             nat = ast.nat
 
-        if ast.name not in groups:
+        # a network object may be continued (NAT), a service object is replaced
+        if ast.type != "network" or ast.name not in groups:
             self._learn(ast.name, p)
 
         if nat:
-- 
2.43.0


From d1e6dd05f12b528090b9637599ac9404bee42288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 19/26] fix: pfSense interfaces with an empty description or
 without static address

An empty descr or ipaddr element and the other dynamic kinds of address than dhcp
made the whole configuration refused.
---
 lib/acltk/pfsenseSemantics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 51edd14..402d7e7 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -86,8 +86,8 @@ class pfsenseParser(aclParser):
             for d in list(i):
                 values[d.tag] = d.text
             values["name"] = i.tag
-            if "ipaddr" in values:
-                if values["ipaddr"] != "dhcp":
+            if values.get("ipaddr"):
+                if values["ipaddr"] not in ("dhcp", "pppoe", "pptp", "l2tp", "ppp"):
                     details = [
                         tatsu.ast.AST(**{"type": ["ip", None, "address"], "value": [values["ipaddr"], None, values["subnet"]]})
                     ]
@@ -99,10 +99,10 @@ class pfsenseParser(aclParser):
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-                alias = html.unescape(values.get("descr", alias))
+                alias = html.unescape(values.get("descr") or alias)
             else:
                 details.append(
-                    tatsu.ast.AST(**{"type": "description", "value": html.unescape(values.get("descr", ""))})
+                    tatsu.ast.AST(**{"type": "description", "value": html.unescape(values.get("descr") or "")})
                 )
 
             obj = Interface(alias=alias, details=details)
-- 
2.43.0


From 701cf9a9c632e7900de927769f30bc9e2277c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 20/26] fix: pfSense rules and aliases without description

KeyError, the whole configuration was refused.
---
 lib/acltk/pfsenseSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 402d7e7..57a6c69 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -123,7 +123,7 @@ class pfsenseParser(aclParser):
             g = None
 
             # description is html escaped
-            values["descr"] = html.unescape(values["descr"] or "")
+            values["descr"] = html.unescape(values.get("descr") or "")
 
             if values["type"] == "host":
                 g = NetworkGroup(values["name"], values["descr"])
@@ -240,6 +240,7 @@ class pfsenseParser(aclParser):
             "log": False,
             "statetype": "keep state",
             "floating": "no",
+            "descr": "",
         }
         valueable = [
             "tracker",
-- 
2.43.0


From 75b0e2ff3a2b47b280bfa579f34fab0a7ca4cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:23 +0000
Subject: [PATCH 21/26] fix: compare a port without operator with an absent
 port

('', '80') < ('', -1) raised a TypeError
---
 lib/acltk/aclObjects.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index cf91526..e6b8f97 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -889,9 +889,8 @@ class Port:
 
     def __eq__(self, o):
         if o is None:
-            c = ("", -1)
-        else:
-            c = (o.op or "", o.num)
+            return False
+        c = (o.op or "", o.num)
         return (self.op or "", self.num) == c
 
     def __ne__(self, o):
@@ -899,9 +898,9 @@ class Port:
 
     def __lt__(self, o):
         if o is None:
-            c = ("", -1)
-        else:
-            c = (o.op or "", o.num)
+            # an absent port is the smallest
+            return False
+        c = (o.op or "", o.num)
 
         return (self.op or "", self.num) < c
 
-- 
2.43.0


From c35a44bbc350c4d64e0e0838906cff8526f2b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:25 +0000
Subject: [PATCH 22/26] fix: end a banner at the next occurrence of its
 delimiter

Carets directly before ^C hid the delimiter, a delimiter that is no ASCII
character made the pattern one for other characters.
---
 lib/acltk/iosSemantics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 6a5aa88..e49da3b 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -1,5 +1,6 @@
 from typing import Union, List
 import ipaddress
+import re
 
 from tatsu.parsing import tatsumasu
 
@@ -256,9 +257,9 @@ class iosParser(aclParser, _iosParser):
     def _delim_msg_(self):
         if self.delim == "^C":
             # not ^ or ^ not followed by C
-            self._pattern(r"([^^]|\^[^C])*")
+            self._pattern(r"([^^]|\^(?!C))*")
         else:
-            p = r"[^\x{:02x}]*".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little"))
+            p = r"[^{}]*".format(re.escape(self.delim))
             self._pattern(p)
 
     @tatsumasu()
@@ -266,4 +267,4 @@ class iosParser(aclParser, _iosParser):
         if self.delim == "^C":
             self._token("^C")
         else:
-            self._pattern(r"\x{:02x}".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little")))
+            self._pattern(re.escape(self.delim))
-- 
2.43.0


From c654b94f9be725585886adaef53aa7987ebbf728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:25 +0000
Subject: [PATCH 23/26] fix: end a comment of a filter at the next */

A * directly before */ hid the end of the comment, which then extended to
the end of another comment or made the filter refused.
---
 lib/acltk/caf.bnf | 2 +-
 lib/acltk/caf.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/caf.bnf b/lib/acltk/caf.bnf
index a3f1c92..6d3a0ab 100644
--- a/lib/acltk/caf.bnf
+++ b/lib/acltk/caf.bnf
@@ -15,7 +15,7 @@ comments
 	;
 
 comment
-	= "/*" ?/(?:[^*]|(?:\*[^/]))*/? "*/"
+	= "/*" ?/(?:[^*]|(?:\*(?!/)))*/? "*/"
 	;
 
 op	= "union"
diff --git a/lib/acltk/caf.py b/lib/acltk/caf.py
index dd930d7..c32958b 100644
--- a/lib/acltk/caf.py
+++ b/lib/acltk/caf.py
@@ -104,7 +104,7 @@ class cafParser(Parser):
     @tatsumasu()
     def _comment_(self):
         self._token('/*')
-        self._pattern('(?:[^*]|(?:\\*[^/]))*')
+        self._pattern('(?:[^*]|(?:\\*(?!/)))*')
         self._token('*/')
 
     @tatsumasu()
-- 
2.43.0


From 526af60de79c96a0ee4435d0a693806e39bf7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:25 +0000
Subject: [PATCH 24/26] fix: keep static routes with a distance, name, tag or
 track

They were taken for one of the ignored ip statements and dropped.
---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 7f3950b..c0267a1 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -172,7 +172,7 @@ ip_command
 
 ip_route
 	= prefix:`None` "profile" NL
-	| prefix:ip4 WS mask:ip4 WS gw:(ip4|acl_interface_id) NL
+	| prefix:ip4 WS mask:ip4 WS gw:(ip4|acl_interface_id) [WS TOEOL] NL
 	;
 
 ip_access_list
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 082253b..31df345 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3165,6 +3165,9 @@ class iosParser(Parser):
                             '<acl_interface_id> <ip4>'
                         )
                 self.name_last_node('gw')
+                with self._optional():
+                    self._WS_()
+                    self._TOEOL_()
                 self._NL_()
                 self._define(['gw', 'mask', 'prefix'], [])
             self._error(
-- 
2.43.0


From d173bb0946bc7945b46fb5470ca518db25551b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:25 +0000
Subject: [PATCH 25/26] fix: end a dhcp pool at the next line that is not
 indented

Everything up to the next line with one of (!|) was dropped with it,
access-lists included, and a bracket in the pool was refused.
---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index c0267a1..d2afc35 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -412,7 +412,7 @@ ip_ignored
 	| "nat" TOEOL NL
 	| "subnet-zero" NL
 	| "dhcp excluded-address" TOEOL NL
-	| "dhcp pool" {?/[^(!|\n)]*/? NL}*
+	| "dhcp pool" TOEOL NL ignored_indent
 	| "tcp" TOEOL NL
 	| "scp" TOEOL NL
 	| "ssh" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 31df345..1c0a65c 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4494,11 +4494,9 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('dhcp pool')
-
-                def block0():
-                    self._pattern('[^(!|\\n)]*')
-                    self._NL_()
-                self._closure(block0)
+                self._TOEOL_()
+                self._NL_()
+                self._ignored_indent_()
             with self._option():
                 self._token('tcp')
                 self._TOEOL_()
-- 
2.43.0


From 14b2af58875dc805ec48dc7a39d43831f60116b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:15 +0000
Subject: [PATCH 26/26] fix: accept several days in a periodic time range and
 keep no empty end day

The grammar allowed several days without white space between them only, and
handed the white space behind the ending day on as a day.
---
 lib/acltk/acl.bnf |  2 +-
 lib/acltk/fwsm.py | 32 ++++++++++++++++++++++++++++----
 lib/acltk/ios.py  | 32 ++++++++++++++++++++++++++++----
 3 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 0407cb4..d64aaad 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -447,7 +447,7 @@ timedate
 	;
 
 time_range_object
-	= type:"periodic" WS days:{day_of_the_week}+ WS start:time WS "to" WS edays:[day_of_the_week WS] end:time NL
+	= type:"periodic" WS days+:day_of_the_week {WS days+:day_of_the_week} WS start:time WS "to" WS [edays+:day_of_the_week {WS edays+:day_of_the_week} WS] end:time NL
 	| type:"periodic" WS days+:("weekdays"|"weekend"|"daily") WS start:time WS "to" WS end:time NL
 	| type:"absolute" [WS "start" WS start:timedate] [WS "end" WS end:timedate] NL
 	| type:"no" WS TOEOL NL
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 57abcc5..9942f9f 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1953,11 +1953,18 @@ class fwsmParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -1966,12 +1973,29 @@ class fwsmParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.add_last_node_to_name('edays')
+
+                    def block1():
+                        self._WS_()
+                        self._day_of_the_week_()
+                        self.add_last_node_to_name('edays')
+                        self._define(
+                            [],
+                            ['edays'],
+                        )
+                    self._closure(block1)
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(
+                        [],
+                        ['edays'],
+                    )
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['end', 'start', 'type'],
+                    ['days', 'edays'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 1c0a65c..5a31c60 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1978,11 +1978,18 @@ class iosParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -1991,12 +1998,29 @@ class iosParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.add_last_node_to_name('edays')
+
+                    def block1():
+                        self._WS_()
+                        self._day_of_the_week_()
+                        self.add_last_node_to_name('edays')
+                        self._define(
+                            [],
+                            ['edays'],
+                        )
+                    self._closure(block1)
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(
+                        [],
+                        ['edays'],
+                    )
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['end', 'start', 'type'],
+                    ['days', 'edays'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
-- 
2.43.0

