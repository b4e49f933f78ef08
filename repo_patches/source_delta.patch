From 9213974dbbb665a981772ded16c08363d193a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:04 +0000
Subject: [PATCH 01/39] fix: decode of a Number enforces its minf/maxf limits

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3ae3763..07951c8 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -213,7 +213,7 @@ def _encode_number(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_number(ts: SymbolTableField, sval, codec: 'Codec'):
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, numbers.Real, isinstance(aval, bool))
-    return _check_range(ts, aval)
+    return _check_frange(ts, aval)
 
 
 def _encode_string(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From 0d577b65a2d889e7a3f1e0291a477cadc46f1e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:09 +0000
Subject: [PATCH 02/39] fix: decode of an anyOf Choice rejects a value that
 matches no alternative

---
 distribution/src/jadn/codec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 07951c8..3e98a35 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -306,6 +306,8 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
             raise_error(f'{td.TypeName}(allOf): {cf}/{n} invalid')
         if combine == 'X' and ct != 1:
             raise_error(f'{td.TypeName}(oneOf): {ct}/{n} valid')
+        if combine == 'O' and cf >= n:
+            raise_error(f'{td.TypeName}(anyOf): {ct}/{n} none valid')
         return v
 
     _check_type(ts, val, dict)
-- 
2.43.0


From 05031993e3893a3935be92a88900d7518efd46e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:13 +0000
Subject: [PATCH 03/39] fix: an untagged union treats a TypeError from an
 alternative as a mismatch

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3e98a35..8799168 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -259,7 +259,7 @@ def _encode_choice(ts: SymbolTableField, val, codec: 'Codec'):
                 ct += 1
                 if combine == 'O':              # anyOf - done on success
                     break
-            except ValueError as e:
+            except (ValueError, TypeError) as e:
                 cf += 1
                 err.append(e)
                 continue
@@ -297,7 +297,7 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
                 ct += 1
                 if combine == 'O':  # oneOf - done on success
                     break
-            except ValueError:
+            except (ValueError, TypeError):
                 cf += 1
                 continue
         td = ts.TypeDef
-- 
2.43.0


From 87d2617008846b2575c4765dc822ba148b799f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:40 +0000
Subject: [PATCH 04/39] fix: text formats accept only strings when decoding

---
 .../src/jadn/codec/format_serialize_json.py       | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index f19a743..96933de 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -37,12 +37,19 @@ def get_format_decode_function(format_table: FormatTable, base_type: str, format
     return _codec_function(format_table, base_type, format_kw, 1)
 
 
+# Serialized value of a type with a text representation must be a string
+def _check_text(sval: Any) -> None:
+    if not isinstance(sval, str):
+        raise TypeError(f'{sval} is not a string')
+
+
 # Binary to String, String to Binary conversion functions
 def b2s_hex(bval: bytes) -> str:      # Convert from binary to hex string
     return base64.b16encode(bval).decode()
 
 
 def s2b_hex(sval: str) -> bytes:      # Convert from hex string to binary
+    _check_text(sval)
     try:
         return base64.b16decode(sval)
     except binascii.Error:
@@ -54,6 +61,7 @@ def b2s_hex_lc(bval: bytes) -> str:      # Convert from binary to hex string
 
 
 def s2b_hex_lc(sval: str) -> bytes:      # Convert from hex string to binary
+    _check_text(sval)
     try:
         return base64.b16decode(sval, casefold=True)
     except binascii.Error:
@@ -65,6 +73,7 @@ def b2s_base64url(bval: bytes) -> str:      # Convert from binary to base64url s
 
 
 def s2b_base64url(sval: str) -> bytes:      # Convert from base64url string to binary
+    _check_text(sval)
     v = sval
     if mod := len(sval) % 4:  # Pad b64 string out to a multiple of 4 characters
         v = f"{sval}{'=' * (4-mod)}"
@@ -82,10 +91,12 @@ def b2s_ipv6_addr(bval: bytes) -> str:        # Convert ipv6 address from binary
 
 
 def s2b_ipv4_addr(sval: str) -> bytes:    # Convert IPv4 addr from string to binary
+    _check_text(sval)
     return IPv4Address(sval).packed
 
 
 def s2b_ipv6_addr(sval: str) -> bytes:    # Convert IPv6 address from string to binary
+    _check_text(sval)
     return IPv6Address(sval).packed
 
 
@@ -130,6 +141,7 @@ def a2s_ipv6_net(aval: [str, int]) -> str:
 
 
 def s2a_ipv4_net(sval: str) -> [str, int]:
+    _check_text(sval)
     sv = sval.split('/', 1)
     sa = s2b_ipv4_addr(sv[0])                  # Convert type-specific string to Binary bytes
     prefix_len = int(sv[1]) if len(sv) > 1 else 32
@@ -139,6 +151,7 @@ def s2a_ipv4_net(sval: str) -> [str, int]:
 
 
 def s2a_ipv6_net(sval: str) -> [str, int]:
+    _check_text(sval)
     sv = sval.split('/', 1)
     sa = s2b_ipv6_addr(sv[0])                  # Convert type-specific string to Binary bytes
     prefix_len = int(sv[1]) if len(sv) > 1 else 128
@@ -152,6 +165,7 @@ def a2s_tag_uuid(aval: [str, str]) -> str:
 
 
 def s2a_tag_uuid(sval: str) -> [str, str]:
+    _check_text(sval)
     t, u = sval.split('-', maxsplit=1)
     return [t, u]
 
@@ -171,6 +185,7 @@ def int2datems(dt: int) -> str:
 
 
 def datems2int(dts: str) -> int:
+    _check_text(dts)
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
     return int(1000 * datetime.timestamp(x))
 
-- 
2.43.0


From e75ae0a3e91e30e8a52c5983febdf5910a81691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:45 +0000
Subject: [PATCH 05/39] fix: decode counts populated elements of a concise
 Record or formatted Array

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 8799168..e2aa4b0 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -357,7 +357,7 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
 
 def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, ts.EncType)
-    _check_size(ts, sval)   # TODO: _check_count() for concise records
+    _check_count(ts, sval)      # Concise Record: unpopulated fields are not counted
     val = sval
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
@@ -423,7 +423,7 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
     val = ts.FormatDecode(sval)
     _check_type(ts, val, list)
-    _check_count(ts, sval)
+    _check_count(ts, val)
     aval = list()
     if len(val) > len(ts.Fld):
         _extra_value(ts, val, set(aval[len(ts.Fld):]))
-- 
2.43.0


From 66af0b3cb89c6e1736298ce7562c2e8b419662f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:50 +0000
Subject: [PATCH 06/39] fix: a boolean is not a valid Enumerated item ID

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index e2aa4b0..2a06737 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -232,7 +232,7 @@ def _decode_string(ts: SymbolTableField, sval, codec: 'Codec'):
 
 def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: disable=R1710
     # TODO: Serialization
-    _check_type(ts, aval, type(next(iter(ts.eMap))))
+    _check_type(ts, aval, type(next(iter(ts.eMap))), isinstance(aval, bool))
     if aval in ts.eMap:
         return ts.eMap[aval]
     td = ts.TypeDef
@@ -240,7 +240,7 @@ def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: d
 
 
 def _decode_enumerated(ts: SymbolTableField, sval, codec: 'Codec'):  # pylint: disable=R1710
-    _check_type(ts, sval, type(next(iter(ts.dMap))))
+    _check_type(ts, sval, type(next(iter(ts.dMap))), isinstance(sval, bool))
     if sval in ts.dMap:
         return ts.dMap[sval]
     td = ts.TypeDef
-- 
2.43.0


From 96689273e4bdc9ffafe8ec0486b301f3aef761d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:55 +0000
Subject: [PATCH 07/39] fix: values of a type with no items or fields are
 rejected with ValueError

---
 distribution/src/jadn/codec/codec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 2a06737..45dad93 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -111,7 +111,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 
 def _check_key(ts: SymbolTableField, val):
     try:
-        return int(val) if isinstance(next(iter(ts.dMap)), int) else val
+        return int(val) if isinstance(next(iter(ts.dMap), None), int) else val
     except ValueError:
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
@@ -232,7 +232,7 @@ def _decode_string(ts: SymbolTableField, sval, codec: 'Codec'):
 
 def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: disable=R1710
     # TODO: Serialization
-    _check_type(ts, aval, type(next(iter(ts.eMap))), isinstance(aval, bool))
+    _check_type(ts, aval, type(next(iter(ts.eMap), None)), isinstance(aval, bool))
     if aval in ts.eMap:
         return ts.eMap[aval]
     td = ts.TypeDef
@@ -240,7 +240,7 @@ def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: d
 
 
 def _decode_enumerated(ts: SymbolTableField, sval, codec: 'Codec'):  # pylint: disable=R1710
-    _check_type(ts, sval, type(next(iter(ts.dMap))), isinstance(sval, bool))
+    _check_type(ts, sval, type(next(iter(ts.dMap), None)), isinstance(sval, bool))
     if sval in ts.dMap:
         return ts.dMap[sval]
     td = ts.TypeDef
-- 
2.43.0


From 0133f235c4e0cef0552ee1cb5c9ad3c2f404d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:00 +0000
Subject: [PATCH 08/39] fix: unique collections compare nested lists by order
 and multiplicity

---
 distribution/src/jadn/codec/codec.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 45dad93..71c6739 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -55,13 +55,16 @@ class CodecTableField(BasicDataclass):
     eType: type = None
 
 
-def fset(x):
+def fhash(x):     # Hashable equivalent of a value
     if isinstance(x, dict):
-        return frozendict({k: fset(v) for k, v in x.items()})
-    try:
-        return frozenset(x) if isinstance(x, (tuple, list, set)) else x
-    except TypeError as e:
-        return frozenset((fset(v) for v in x))
+        return frozendict({k: fhash(v) for k, v in x.items()})
+    if isinstance(x, (tuple, list)):
+        return tuple(fhash(v) for v in x)
+    return frozenset(x) if isinstance(x, set) else x
+
+
+def fset(x):      # Set of distinct values
+    return frozenset(fhash(v) for v in x)
 
 
 def _bad_index(ts: SymbolTableField, k: int, val: list) -> None:
-- 
2.43.0


From 51c3643e5649ad540f712cabb1b5f12265f2144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:04 +0000
Subject: [PATCH 09/39] fix: decode of a MapOf decodes and validates its keys

---
 distribution/src/jadn/codec/codec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 71c6739..045e66b 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -480,7 +480,8 @@ def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, dict)
     _check_size(ts, sval)
-    return {k: codec.decode(ts.TypeOpts['vtype'], v) for k, v in sval.items()}
+    to = ts.TypeOpts
+    return {codec.decode(to['ktype'], k): codec.decode(to['vtype'], v) for k, v in sval.items()}
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From c06cfca3af1e4ec2e358d269dc891804b0bddb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:11 +0000
Subject: [PATCH 10/39] fix: a Map with the id option uses field ids as keys in
 verbose mode

---
 distribution/src/jadn/codec/codec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 045e66b..e2fc048 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -330,7 +330,8 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_size(ts, aval)
     sval = ts.EncType()
     assert isinstance(sval, (list, dict))
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID
     fnames = [f.Def.FieldName for f in ts.Fld.values()]
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
@@ -365,7 +366,8 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
     aval = dict()
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID
     fnames = list(ts.Fld)
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
-- 
2.43.0


From f59d272dcfca6591910ed9246ebef27a951c0d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:15 +0000
Subject: [PATCH 11/39] fix: fields with an external tag are looked up by the
 key of the encoding mode

---
 distribution/src/jadn/codec/codec.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index e2fc048..b59bdac 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -339,8 +339,11 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
         fname = fd[FieldName]  # Field name
         fopts = fs.Opt  # Field options dict
         ctag = fs.cTag
-        if ctag is not None:  # Type of this field is specified by contents of another field
-            e = codec.encode(fd.FieldType, {aval[ctag]: aval[fname]})
+        if ctag is not None and fname in aval:  # Type of this field is specified by contents of another field
+            tf = ts.Fld[ts.eMap[ctag]].Def      # Field containing the tag
+            if tf.FieldName not in aval:
+                _bad_value(ts, aval, tf)
+            e = codec.encode(fd.FieldType, {aval[tf.FieldName]: aval[fname]})
             sv = next(iter(e.values()))
         else:
             sv = codec.encode(fd.FieldType, aval[fname]) if fname in aval else None
@@ -382,8 +385,11 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         if sv is not None:
             ctag = fs.cTag
             if ctag is not None:  # Type of this field is specified by contents of another field
-                ct = ctag if isinstance(val, dict) else ts.eMap[ctag] - 1
-                av = codec.decode(fd.FieldType, {sval[ct]: sv})
+                tf = ts.Fld[ts.eMap[ctag]].Def      # Field containing the tag
+                ct = tf[fx] if isinstance(val, dict) else tf.FieldID - 1
+                if not (ct in val if isinstance(val, dict) else ct < len(val)):
+                    _bad_value(ts, val, tf)
+                av = codec.decode(fd.FieldType, {val[ct]: sv})
                 aval[fd[FieldName]] = next(iter(av.values()))
             else:
                 aval[fd[FieldName]] = codec.decode(fd.FieldType, sv)
@@ -410,7 +416,10 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
         av = aval[fx] if len(aval) > fx else None
         if av is not None:
             if 'tagid' in fopts:
-                choice_type = aval[int(fopts['tagid']) - 1]
+                tx = int(fopts['tagid']) - 1
+                if len(aval) <= tx:
+                    _bad_value(ts, aval, ts.Fld[tx + 1].Def)
+                choice_type = aval[tx]
                 e = codec.encode(f.FieldType, {choice_type: av})
                 sv = e[next(iter(e))]
             else:
@@ -439,7 +448,10 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
         sv = val[fx] if len(val) > fx else None
         if sv is not None:
             if 'tagid' in fopts:
-                choice_type = val[int(fopts['tagid']) - 1]
+                tx = int(fopts['tagid']) - 1
+                if len(val) <= tx:
+                    _bad_value(ts, val, ts.Fld[tx + 1].Def)
+                choice_type = val[tx]
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
             else:
-- 
2.43.0


From 85de652f646b95a1ac8df95b61e23cc11e3c6929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:21 +0000
Subject: [PATCH 12/39] fix: fluff merges hierarchical keys that share a prefix
 of any depth

---
 distribution/src/jadn/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index dd9c801..c3fadbf 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -48,7 +48,16 @@ def fluff(src: dict, sep: str = '.') -> dict:
     :param sep: separator character for keys
     :return: nested dict - e.g., {'a': {'b': {'c': 1, 'd': 2}}}
     """
-    return reduce(dmerge, [hdict(k, v, sep) for k, v in src.items()], {})
+    rtn: dict = {}
+    for key, value in src.items():
+        *path, leaf = key.split(sep)
+        node = rtn
+        for k in path:
+            if not isinstance(node.get(k), dict):
+                node[k] = {}
+            node = node[k]
+        node[leaf] = value
+    return rtn
 
 
 def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
-- 
2.43.0


From 7fa9bca57c09765b83905e1c6423f6792f1d9948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:25 +0000
Subject: [PATCH 13/39] fix: dumps escapes dict keys

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 55a20ab..4705940 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -194,7 +194,7 @@ def dumps_rec(val: Any, level: int = 0, indent: int = 2, strip: bool = False) ->
     sep2 = ',\n' if strip else ',\n\n'
     if isinstance(val, dict):
         sep = ',\n' if level > 0 else sep2
-        lines = sep.join(f'{sp2}"{k}": {dumps_rec(val[k], level + 1, indent, strip)}' for k in val)
+        lines = sep.join(f'{sp2}{json.dumps(k, ensure_ascii=False)}: {dumps_rec(val[k], level + 1, indent, strip)}' for k in val)
         return f'{{\n{lines}\n{sp}}}'
     if isinstance(val, list):
         sep = ',\n' if level > 1 else sep2
-- 
2.43.0


From da6ec9ef156367d02eed29d424dd7aef67ba76e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:30 +0000
Subject: [PATCH 14/39] fix: merge_typedef does not refer to a nonexistent
 option

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 064f68b..8409137 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -78,7 +78,7 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
 
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
     # Options whose value is/has a type name
-    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer'], OPTION_ID['and']]
+    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
     def update_opts(opts: list[str]) -> list[str]:
         return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
-- 
2.43.0


From 19f4f2842848b7912a0002f748c2dcc13821e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 15/39] fix: external references are collected in lists

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 8409137..97d09e6 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -49,7 +49,7 @@ class SchemaPackage:
                     self.deps[tn].remove(dn)
                     nsid, typename = dn.split(':', maxsplit=1)
                     try:
-                        self.refs[self.namespaces[nsid]][tn].add(typename)
+                        self.refs[self.namespaces[nsid]][tn].append(typename)
                     except KeyError as e:
                         raise_error(f'Resolve: no namespace defined for {e}')
 
-- 
2.43.0


From d593afcf427682786620823d6c71e9235d83e1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 16/39] fix: unfold accepts MapOf with a core type as key type

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 6ce682c..3b1ee1b 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -170,7 +170,7 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
-        if tdef.BaseType == 'MapOf' and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
+        if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
-- 
2.43.0


From b054bc6e04d48fb9ff479c94493e6a7d00ee6443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 17/39] fix: pointer enumerations of nested directories contain
 the full path

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 3b1ee1b..e37a5a8 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -139,7 +139,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 for f in tdef.Fields:
                     if OPTION_ID['dir'] in f.FieldOptions:
                         if f.FieldType in typex:
-                            yield from pathnames(f.FieldType, f'{f.FieldName}/')
+                            yield from pathnames(f.FieldType, f'{base}{f.FieldName}/')
                     else:
                         yield [base + f.FieldName, f.FieldDesc]
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
-- 
2.43.0


From 9b25d2837a156eed3e1d2af337d271a9b7294483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:50 +0000
Subject: [PATCH 18/39] fix: a derived enumeration keeps its id option when it
 is listed first

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index e37a5a8..145bfff 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -65,7 +65,7 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     if x is None:
         return None
     oname = 'Enum' if topts[x][0] == OPTION_ID['enum'] else 'Pointer'
-    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') else ''}"
+    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
 
 
 # Replace field multiplicity with explicit ArrayOf type definitions
-- 
2.43.0


From 82273c6ff9b0a9ba69020b6be0f433218c1177fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 19/39] fix: unfolding multiplicity keeps the type options of a
 repeated field

---
 distribution/src/jadn/transform/transform.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 145bfff..0488975 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -76,6 +76,12 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'maxc' in fo and fo['maxc'] != 1:
                     minc = fo.get('minc', 1)
+                    # Type options other than unique constrain the elements: move them to an explicit element type
+                    if itemopts := [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto if o != 'unique']:
+                        newtype = 'Enumerated' if epx(itemopts) is not None else fdef.FieldType
+                        fdef.FieldType = epname(itemopts, sys) or f'{tdef.TypeName}{sys}{fdef.FieldName}{sys}Item'
+                        if fdef.FieldType not in [t.TypeName for t in schema['types']]:
+                            schema['types'].append(TypeDefinition(fdef.FieldType, newtype, itemopts, fdef.FieldDesc))
                     newopts = {
                         'vtype': fdef.FieldType,
                         'minv': max(minc, 1),  # Don't allow empty ArrayOf
-- 
2.43.0


From 2e38cc7a5b7e06be8abae8dde2bb2c5701c542c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 20/39] fix: analyze does not report derived enumerations of
 defined types as undefined

---
 distribution/src/jadn/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 4705940..c1beffb 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -154,7 +154,8 @@ def analyze(schema: dict) -> dict:
     info = schema.get('info', {})
     roots = info.get('roots', info.get('exports', []))      # Exports is deprecated
     defs = set(items)
-    dep_refs = {v for d in items for v in items[d]}
+    # Names of referenced types, without the option id of a derived enumeration
+    dep_refs = {v.lstrip(OPTION_ID['enum'] + OPTION_ID['pointer']) for d in items for v in items[d]}
     refs = set(dep_refs) | set(roots)
     return {
         'unreferenced': list(defs - refs),
-- 
2.43.0


From 98820273e2ac1a68ae81ef7689d18dde87ddbecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:20 +0000
Subject: [PATCH 21/39] fix: a derived enumeration used by several types is
 generated once

---
 distribution/src/jadn/transform/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 0488975..435b5d3 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -129,6 +129,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 else:                   # Make new Enumerated type
                     make_items = enum_items if opts[n][1:2] == OPTION_ID['enum'] else pointer_items
                     opts[n] = f'{opts[n][:1]}{name}'
+                    enums.update({name: name})
                     schema['types'].append(TypeDefinition(name, 'Enumerated', [], '', [EnumFieldDefinition(*f) for f in make_items(name.rsplit(sys, maxsplit=1)[0])]))
 
     def enum_items(rtype: str) -> list:
-- 
2.43.0


From 0a0ff642cc54f6440c142b20207ba90cee396849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 22/39] fix: dumps writes None as null

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index c1beffb..20a2efb 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -187,7 +187,7 @@ def load_any(fp: TextIO) -> dict:
 
 
 def dumps_rec(val: Any, level: int = 0, indent: int = 2, strip: bool = False) -> str:
-    if isinstance(val, (numbers.Number, type(''))):
+    if val is None or isinstance(val, (numbers.Number, type(''))):
         return json.dumps(val, ensure_ascii=False)
 
     sp = level * indent * ' '
-- 
2.43.0


From 474569ac6e507c9fe50395ba17c1c98e0f606d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 23/39] fix: datetime-ms text converts back to the same
 millisecond

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 96933de..ff6c44a 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -187,7 +187,7 @@ def int2datems(dt: int) -> str:
 def datems2int(dts: str) -> int:
     _check_text(dts)
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
-    return int(1000 * datetime.timestamp(x))
+    return round(1000 * datetime.timestamp(x))     # float product may be just below the integer
 
 
 # No special sized integer serialization in JSON.  Define these for packed encoding.
-- 
2.43.0


From 51bd504b7dc5d2d73e0fcedddedbf824de77b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 24/39] fix: a datetime-ms value out of range is rejected with
 ValueError

---
 distribution/src/jadn/codec/format_serialize_json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index ff6c44a..550a3f9 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -178,7 +178,10 @@ FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
 
 
 def int2datems(dt: int) -> str:
-    y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
+    try:
+        y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
+    except (OverflowError, OSError):    # out of range of platform time functions
+        raise ValueError(f'{dt} is not a valid datetime')
     if m := re.match(r'^(.+)(\.\d\d\d)(\d\d\d)(.+)$', y):   # strip microseconds to milliseconds
         y = m.group(1) + m.group(2) + m.group(4)
     return y
-- 
2.43.0


From e1e2d017b9da82a81e38827354278609cd970d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 25/39] fix: an empty hostname is rejected with ValueError

---
 distribution/src/jadn/codec/format_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 8bacf45..1ed3c53 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -46,7 +46,7 @@ def s_hostname(sval: str) -> str:
     if not isinstance(sval, type('')):
         raise TypeError
     hostname = sval[:]      # Copy since we're modifying input
-    if hostname[-1] == ".":
+    if hostname[-1:] == ".":
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-- 
2.43.0


From 20a49b45b86a9cab9b465a924c49a6f1faaf70ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 26/39] fix: tag-uuid text splits at the UUID, not inside a tag
 with hyphens

---
 distribution/src/jadn/codec/format_serialize_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 550a3f9..7d0b81a 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -166,7 +166,8 @@ def a2s_tag_uuid(aval: [str, str]) -> str:
 
 def s2a_tag_uuid(sval: str) -> [str, str]:
     _check_text(sval)
-    t, u = sval.split('-', maxsplit=1)
+    m = re.match(r'(?is)^(.*)-([0-9a-f]{8}(?:-[0-9a-f]{4}){3}-[0-9a-f]{12})$', sval)   # tag may contain hyphens
+    t, u = m.groups() if m else sval.split('-', maxsplit=1)
     return [t, u]
 
 
-- 
2.43.0


From addb1a311142489e246b8ea2b5c18ddd3da7e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 27/39] fix: an infinite number as a key is rejected with
 ValueError

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index b59bdac..920ea3d 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -115,7 +115,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 def _check_key(ts: SymbolTableField, val):
     try:
         return int(val) if isinstance(next(iter(ts.dMap), None), int) else val
-    except ValueError:
+    except (ValueError, OverflowError):
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
 
-- 
2.43.0


From d1a8f13c22eebb50a6b70a65304b5503bce7b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 28/39] fix: tag-uuid validation rejects values that are not
 lists with TypeError

---
 distribution/src/jadn/codec/format_validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 1ed3c53..af0ba16 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -73,7 +73,8 @@ def b_uuid(bval: bytes) -> bytes:           # UUID is 128 bits
 
 
 def a_tag_uuid(aval: [str, bytes]) -> [str, bytes]:
-    if (    len(aval) == 2 and
+    if (    isinstance(aval, list) and
+            len(aval) == 2 and
             isinstance(aval[0], str) and
             isinstance(aval[1], bytes) and
             len(aval[1]) == 16):
-- 
2.43.0


From e6d572d1bffc2ae47939988b0dcdf20597f96db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 29/39] fix: datetime-ms text of late dates has the right
 millisecond

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 7d0b81a..89bce89 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -180,7 +180,7 @@ FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
 
 def int2datems(dt: int) -> str:
     try:
-        y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
+        y = datetime.fromtimestamp(dt // 1000, timezone.utc).replace(microsecond=dt % 1000 * 1000).isoformat()
     except (OverflowError, OSError):    # out of range of platform time functions
         raise ValueError(f'{dt} is not a valid datetime')
     if m := re.match(r'^(.+)(\.\d\d\d)(\d\d\d)(.+)$', y):   # strip microseconds to milliseconds
-- 
2.43.0


From 29fe2b59d308623db9528d90eb5f2d0b69b45428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 30/39] fix: check rejects an external tag that refers to
 nonexistent field id 0

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 20a2efb..97ca194 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -133,7 +133,7 @@ def check(schema: dict) -> dict:
                 if minc < 0 or maxc < 0 or (0 < maxc < minc):
                     raise_error(f'{type_def.TypeName}/{field.FieldName} bad multiplicity {minc} {maxc}')
 
-                if tf := fo.get('tagid', None):
+                if (tf := fo.get('tagid', None)) is not None:
                     if tf not in {f[FieldID] for f in fields}:
                         raise_error(f'{type_def.TypeName}/{field.FieldName}({field.FieldType}) choice has bad external tag {tf}')
                 if is_builtin(field.FieldType):
-- 
2.43.0


From 8ebb9c407104efa4b2ff63303f93ebeb6a97b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 31/39] fix: external tags in the last type of an interface
 text are resolved

---
 distribution/src/jadn/convert/jidl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 1c31e6c..49b227f 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -139,6 +139,8 @@ def jidl_loads(doc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    if fields:                          # Last type is not followed by another line
+        cleanup_tagid(fields)
     return check({'info': info, 'types': types} if info else {'types': types})
 
 
-- 
2.43.0


From ae0bf0c162dd5d96bf6ebecc07932d81742aa113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 32/39] fix: an external tag with field id 0 is written in
 field definitions

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index c3fadbf..aa739a6 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -404,7 +404,7 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
         fo, fto = ftopts_s2d(fdef[FieldOptions])
         fname += '/' if 'dir' in fo else ''
         tf = ''
-        if tagid := fo.get('tagid', None):
+        if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
             tf = f'(TagId[{tf if tf else tagid}])'
         ft = jadn2typestr(f'{fdef[FieldType]}{tf}', opts_d2s(fto))
-- 
2.43.0


From 6b93023c220aa081b283a012e783f228fe13c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 33/39] fix: JSON Schema: define Binary elements instead of
 referring to a definition that does not exist

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 959d799..fd9adf6 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -100,7 +100,7 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
     """
     Make definition from ktype or vtype option
     """
-    stypes = {'Boolean': 'boolean', 'Integer': 'integer', 'Number': 'number', 'String': 'string'}
+    stypes = {'Binary': 'string', 'Boolean': 'boolean', 'Integer': 'integer', 'Number': 'number', 'String': 'string'}
     if stype in stypes:
         return {'type': stypes[stype]}
     if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-- 
2.43.0


From 37142cfe8d9738f686835f5100518c977848fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 34/39] fix: JSON Schema: refer to imported element types as to
 imported field types

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index fd9adf6..6969105 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -109,7 +109,7 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
         fields = get_enum_items(tdef, topts, ctx['type_defs'])
         idopt = 'id' in topts
         return w_enum(fields, FieldID if idopt else FieldName, FieldDesc, idopt, ctx)
-    return {'$ref': f'#/definitions/{stype}'}
+    return w_ref(stype, ctx)
 
 
 def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
-- 
2.43.0


From b8dfc0f6ae70d0a81fc4ef11206cd6ab44ad1e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 35/39] fix: JSON Schema: keep the options of the alternatives
 of a combined choice

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 6969105..265251b 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -245,7 +245,7 @@ def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
     if combine := topts.get('combine'):
         c = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[combine]
-        return {c: [TYPE_WRITERS[f[FieldType]](tdef, topts, ctx) if is_builtin(f[FieldType]) else w_ref(f[FieldType], ctx) for f in tdef[Fields]]}
+        return {c: [w_fdef(f, ctx) for f in tdef[Fields]]}
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From 9d91f360a9dc878a8221ebad060262f22d5e25e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 36/39] fix: JSON Schema: do not fail on an enumeration of
 pointers written as constants

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 265251b..2bbb3ec 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -235,7 +235,7 @@ def t_string(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
     item, tname = (ItemID, 'integer') if 'id' in topts else (ItemValue, 'string')
     fields = get_enum_items(tdef, topts, ctx['type_defs'])
-    dcol = FieldDesc if 'enum' in topts or 'pointer' in topts else ItemDesc
+    dcol = FieldDesc if 'enum' in topts else ItemDesc
     return dmerge(
         w_td(tname, tdef[TypeDesc]),
         w_enum(fields, item, dcol, 'id' in topts, ctx)
-- 
2.43.0


From 31d5fdd2ffdb8ad917e00d2207d77c1006f84eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 37/39] fix: JSON Schema: MapOf with core key types, and
 independence from the order of options

---
 .../src/jadn/translate/jsonschema_w.py        | 20 ++++++-------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 2bbb3ec..bdaae6a 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -298,28 +298,20 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
-    items = get_items(topts['ktype'], ctx)
     vtype = w_kvtype(topts['vtype'], ctx)
     ktype = w_kvtype(topts['ktype'], ctx)
-    
-    opts = tdef[TypeOptions]
-    k_opt = opts[0]
-    k_name = k_opt[1:]
-    
-    v_opt = opts[1]
-    v_name = v_opt[1:]
-    
-    key_array = ctx.get('type_defs', {}).get(k_name)
-    key_type = key_array[1]
-    
+
+    k_name = topts['ktype']
+    v_name = topts['vtype']
+    key_type = ctx['type_defs'][k_name][BaseType] if k_name in ctx['type_defs'] else k_name
+
     merged = {}
     if key_type == 'String':
         merged = dmerge(
             w_td('object', tdef[TypeDesc]),
             {'additionalProperties': False},
             {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-            {'patternProperties': {pattern(items): vtype}} if items and ctx['enum_style'] == 'regex' else {}
+            {'maxProperties': topts['maxv']} if 'maxv' in topts else {}
         )
         
         properties = {
-- 
2.43.0


From b563b3ccd6aa88d84cb9ffaae4f5b4a37c0c2465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 38/39] fix: resolve the base types of derived enumerations

---
 distribution/src/jadn/transform/resolve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 97d09e6..794e4df 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -41,7 +41,8 @@ class SchemaPackage:
             return
         check(self.schema)
         self.tx = {t[TypeName]: t for t in self.schema['types']}
-        self.deps = build_deps(self.schema)
+        derived = OPTION_ID['enum'] + OPTION_ID['pointer']      # Derived enumerations depend on their base type
+        self.deps = {tn: [dn.lstrip(derived) for dn in deps] for tn, deps in build_deps(self.schema).items()}
         self.refs = defaultdict(lambda: defaultdict(list))
         for tn in self.deps:
             for dn in list(self.deps[tn]):     # Iterate over copy so original can be modified safely
@@ -71,9 +72,11 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
     :param sys: single character system generated type delimiter
     :return: Local type name, qualified (TypeName$nsid) or unqualified (TypeName)
     """
+    derived = tref[:1] if tref[:1] in (OPTION_ID['enum'], OPTION_ID['pointer']) else ''    # Derived enumeration
+    tref = tref[len(derived):]
     nsid, tname = tref.split(':', maxsplit=1) if ':' in tref else ('', tref)
     ns_id = nsids[namespaces[nsid] if nsid else package][0]
-    return f'{tname}{sys}{ns_id}' if ns_id and not is_builtin(tname) else tname
+    return f'{derived}{tname}{sys}{ns_id}' if ns_id and not is_builtin(tname) else f'{derived}{tname}'
 
 
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
-- 
2.43.0


From 6c8b701a556ce6dd545ce22d20d17fd502a628a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 39/39] fix: resolve: namespace ids of the root schema count,
 and each qualifies the types of one package

---
 distribution/src/jadn/transform/resolve.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 794e4df..b80541c 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -146,6 +146,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
     root = SchemaPackage(schema)
     packages = {root.package: root}
     nsids = defaultdict(list)
+    for i, m in root.namespaces.items():
+        nsids[m].append('' if i in no_nsid else i)
 
     for fn in (os.path.join(dirname, f) for f in os.listdir(dirname) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
         with open(fn, 'r', encoding='utf-8') as fp:
@@ -158,6 +160,13 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid else i)
+    taken = set()
+    for ids in nsids.values():      # A namespace id may stand for other packages elsewhere, but qualifies the types of one
+        nsid, n = next((i for i in ids if not i or i not in taken), ids[0]), 1
+        while nsid and nsid in taken:
+            nsid, n = f'{ids[0]}{n}', n + 1
+        taken.add(nsid)
+        ids.insert(0, nsid)
     resolve(root, root.schema['info']['exports'] if 'exports' in root.schema['info'] else set(), packages)
 
     for t in root.used.copy():
-- 
2.43.0

