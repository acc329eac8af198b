From fee042d3e0fc965f698bc8e11c93fdf3fea57872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:26 +0000
Subject: [PATCH 01/62] fix: enforce multipleOf for integer primitives

---
 pyswagger/primitives/_int.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/primitives/_int.py b/pyswagger/primitives/_int.py
index a4a9eba..901b26a 100644
--- a/pyswagger/primitives/_int.py
+++ b/pyswagger/primitives/_int.py
@@ -1,10 +1,13 @@
 from __future__ import absolute_import
+from ..errs import ValidationError
 from .comm import min_max
 
 
 def validate_int(obj, ret, val, ctx):
     min_max(obj, ret, False)
     min_max(obj, ret, True)
+    if obj.multipleOf and ret % obj.multipleOf != 0:
+        raise ValidationError('{0} should be multiple of {1}'.format(val, obj.multipleOf))
 
     return val
  
-- 
2.43.0


From cf3368fa4469b68a0d991a83c1440ff1911b9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 02/62] fix: match cached JSON pointers by whole tokens when
 resolving

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 1860d32..503cb2a 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -399,7 +399,7 @@ class App(object):
                 obj = o.resolve(utils.jp_split(jp)[1:])
             elif isinstance(o, dict):
                 for k, v in six.iteritems(o):
-                    if jp.startswith(k):
+                    if jp == k or jp.startswith(k + '/'):
                         obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
                         break
             else:
-- 
2.43.0


From 114c48f98bf6dcace16b1b1f2cd2758af44593e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 03/62] fix: NameError when App.load rejects an unsupported
 version

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 503cb2a..36ac25f 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -284,7 +284,7 @@ class App(object):
         app = kls(url, url_load_hook=url_load_hook, sep=sep, prim=prim, mime_codec=mime_codec, resolver=resolver)
         app.__raw, app.__version = app.load_obj(url, getter=getter, parser=parser)
         if app.__version not in ['1.2', '2.0']:
-            raise NotImplementedError('Unsupported Version: {0}'.format(self.__version))
+            raise NotImplementedError('Unsupported Version: {0}'.format(app.__version))
 
         # update scheme if any
         p = six.moves.urllib.parse.urlparse(url)
-- 
2.43.0


From 38ba4a005794e37a9a643e17aac6134b43cf39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 04/62] fix: load YAML documents with the safe loader

---
 pyswagger/getter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index abdc8fb..9f5e329 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -45,7 +45,7 @@ class Getter(six.Iterator):
                 if obj.startswith('{'):
                     obj = json.loads(obj)
                 else:
-                    obj = yaml.load(obj)
+                    obj = yaml.safe_load(obj)
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(obj[:10]))
 
-- 
2.43.0


From f41020a0cb0b152f563ac0fd32c93841de553a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 05/62] fix: maxLength and maxItems of 0 are limits

---
 pyswagger/primitives/_array.py | 2 +-
 pyswagger/primitives/_str.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index e79bb73..68d7af5 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -51,7 +51,7 @@ class Array(list):
         # init array as list
         if obj.minItems and len(self) < obj.minItems:
             raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, len(self)))
-        if obj.maxItems and len(self) > obj.maxItems:
+        if obj.maxItems is not None and len(self) > obj.maxItems:
             raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, len(self)))
 
         return val
diff --git a/pyswagger/primitives/_str.py b/pyswagger/primitives/_str.py
index a60b51b..1385497 100644
--- a/pyswagger/primitives/_str.py
+++ b/pyswagger/primitives/_str.py
@@ -7,7 +7,7 @@ from validate_email import validate_email
 def validate_str(obj, ret, val, ctx):
     if obj.enum and ret not in obj.enum:
         raise ValidationError('{0} is not a valid enum for {1}'.format(ret, str(obj.enum)))
-    if obj.maxLength and len(ret) > obj.maxLength:
+    if obj.maxLength is not None and len(ret) > obj.maxLength:
         raise ValidationError('[{0}] is longer than {1} characters'.format(ret, str(obj.maxLength)))
     if obj.minLength and len(ret) < obj.minLength:
         raise ValidationError('[{0}] is shorter than {1} characters'.format(ret, str(obj.minLength)))
-- 
2.43.0


From 0a7657b9e78d2967170a35f99cb927ae3d008fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 06/62] fix: accept int timestamps for date and date-time as
 documented

---
 pyswagger/primitives/_time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/_time.py b/pyswagger/primitives/_time.py
index 31063aa..fca14e9 100644
--- a/pyswagger/primitives/_time.py
+++ b/pyswagger/primitives/_time.py
@@ -28,7 +28,7 @@ class Date(Time):
         :type v: timestamp in float, datetime.date object, or ISO-8601 in str
         """
         self.v = None
-        if isinstance(v, float):
+        if isinstance(v, six.integer_types + (float,)):
             self.v = datetime.date.fromtimestamp(v)
         elif isinstance(v, datetime.date):
             self.v = v
@@ -49,7 +49,7 @@ class Datetime(Time):
         :type v: timestamp in float, datetime.datetime object, or ISO-8601 in str
         """
         self.v = None
-        if isinstance(v, float):
+        if isinstance(v, six.integer_types + (float,)):
             self.v = datetime.datetime.utcfromtimestamp(v)
         elif isinstance(v, datetime.datetime):
             self.v = v
-- 
2.43.0


From 90601a279e005accfba23f33d6c59534ba629ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 07/62] fix: drop the time part when a date is made from a
 datetime

---
 pyswagger/primitives/_time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/_time.py b/pyswagger/primitives/_time.py
index fca14e9..f524e07 100644
--- a/pyswagger/primitives/_time.py
+++ b/pyswagger/primitives/_time.py
@@ -30,6 +30,8 @@ class Date(Time):
         self.v = None
         if isinstance(v, six.integer_types + (float,)):
             self.v = datetime.date.fromtimestamp(v)
+        elif isinstance(v, datetime.datetime):
+            self.v = v.date()
         elif isinstance(v, datetime.date):
             self.v = v
         elif isinstance(v, six.string_types):
-- 
2.43.0


From 22af3fb039b716cd1f7b58549a450ccad5373eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 08/62] fix: match scopes by whole names in ScopeDict

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 485b245..b91e011 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -74,7 +74,7 @@ class ScopeDict(dict):
         except KeyError as e:
             ret = []
             for ik in self.keys():
-                if ik.endswith(k):
+                if ik.endswith(self.__sep + k):
                     ret.append(ik)
             if len(ret) == 1:
                 return super(ScopeDict, self).__getitem__(ret[0])
-- 
2.43.0


From e1af2afc794a1b83d855cb155822285e2cee0bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 09/62] fix: url_dirname ignores .yml files

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index b91e011..7e7e1d8 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -333,7 +333,7 @@ def url_dirname(url):
     """ Return the folder containing the '.json' file
     """
     p = six.moves.urllib.parse.urlparse(url)
-    for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML]:
+    for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML, private.FILE_EXT_YML]:
         if p.path.endswith(e):
             return six.moves.urllib.parse.urlunparse(
                 p[:2]+
-- 
2.43.0


From 6733a00f073d97d923e66c12f05efbb1bbb37d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 10/62] fix: enforce readOnly for nested models and array items
 in write context

---
 pyswagger/primitives/_array.py | 3 +--
 pyswagger/primitives/_model.py | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 68d7af5..bcbd294 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -1,6 +1,5 @@
 from __future__ import absolute_import
 from ..errs import ValidationError, SchemaError
-import functools
 import six
 
 
@@ -45,7 +44,7 @@ class Array(list):
                 val = set(val)
 
         if obj.items and len(val):
-            self.extend(map(functools.partial(ctx['factory'].produce, obj.items), val))
+            self.extend([ctx['factory'].produce(obj.items, v, {'read': ctx['read']}) for v in val])
             val = []
 
         # init array as list
diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 087df19..360cd71 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -26,7 +26,7 @@ class Model(dict):
                 if pobj.readOnly == True and ctx['read'] == False:
                     raise Exception('read-only property is set in write context.')
 
-                self[k] = ctx['factory'].produce(pobj, v)
+                self[k] = ctx['factory'].produce(pobj, v, {'read': ctx['read']})
 
             # TODO: patternProperties here
             # TODO: fix bug, everything would not go into additionalProperties, instead of recursive
@@ -69,7 +69,7 @@ class Model(dict):
         elif ctx['addp_schema'] != None:
             obj = ctx['addp_schema']
             for k, v in six.iteritems(val):
-                self[k] = ctx['factory'].produce(obj.additionalProperties, v)
+                self[k] = ctx['factory'].produce(obj.additionalProperties, v, {'read': ctx['read']})
             ctx['addp_schema'] = None
 
         return {}
-- 
2.43.0


From 366bcacb80d1f7f59879696642e0ba6e9f7b9ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 11/62] fix: report an unknown authorization instead of raising
 KeyError

---
 pyswagger/scanner/v1_2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index ea1d80a..6c84251 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -132,7 +132,7 @@ class Validate(object):
             if k not in app.raw.authorizations:
                 errs.append('auth {0} not found in resource list'.format(k))
 
-            if app.raw.authorizations[k].type in ('basicAuth', 'apiKey') and v != []:
+            elif app.raw.authorizations[k].type in ('basicAuth', 'apiKey') and v != []:
                 errs.append('auth {0} should be an empty list'.format(k))
 
         return path, obj.__class__.__name__, errs
-- 
2.43.0


From 21e9456eea6482f4a38e4eb19eafdefb9af0f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 12/62] fix: upgrade resource lists without an info object

---
 pyswagger/scanner/v1_2/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index f65a5f9..1167024 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -98,12 +98,12 @@ class Upgrade(object):
         info.update_field('description', get_or_none(obj, 'info', 'description'))
         info.update_field('termsOfService', get_or_none(obj, 'info', 'termsOfServiceUrl'))
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact = objects.Contact(NullContext())
             contact.update_field('email', get_or_none(obj, 'info', 'contact'))
             info.update_field('contact', contact)
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(obj, 'info', 'licenseUrl'):
             license = objects.License(NullContext())
             license.update_field('name', get_or_none(obj, 'info', 'license'))
             license.update_field('url', get_or_none(obj, 'info', 'licenseUrl'))
-- 
2.43.0


From f5446989de031143e8377b6757ed57fdbcecbbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 13/62] fix: upgrade resources without a common base path

---
 pyswagger/scanner/v1_2/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 1167024..047138f 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -295,7 +295,7 @@ class Upgrade(object):
         common_path = os.path.commonprefix(list(self.__swagger.paths))
         # remove tailing slash,
         # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[-1] == '/' else common_path
+        common_path = common_path[:-1] if common_path.endswith('/') else common_path
 
         if len(common_path) > 0:
             p = six.moves.urllib.parse.urlparse(common_path)
-- 
2.43.0


From 96135f028273a0579212890941f7bc52a2cddb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 14/62] fix: keep a minimum or maximum of 0 when upgrading

---
 pyswagger/scanner/v1_2/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 047138f..535f3ab 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -30,7 +30,7 @@ def update_type_and_ref(dst, src, scope, sep, app):
 def convert_min_max(dst, src):
     def _from_str(name):
         v = getattr(src, name, None)
-        if v:
+        if v is not None and v != '':
             if src.type == 'integer':
                 # we need to handle 1.0 when converting to int
                 # that's why we need to convert to float first
-- 
2.43.0


From ccbe4b6effcc629e067ecbc70c52d7794a0eeaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 15/62] fix: compose_headers modifies the headers passed by the
 caller

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 36ac25f..cc838a1 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -580,7 +580,7 @@ class BaseClient(object):
         join_headers = opt.pop(BaseClient.join_headers, None)
         if as_dict and not join_headers:
             # pick the most efficient way for special case
-            headers = dict(headers) if isinstance(headers, list) else headers
+            headers = dict(headers)
             headers.update(req.header)
             return headers
 
-- 
2.43.0


From 033f378f17a98155d25fbc81995464e9e58751e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 16/62] fix: close the files opened for an upload by the
 requests client

---
 pyswagger/contrib/client/requests.py | 44 ++++++++++++++++------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/pyswagger/contrib/client/requests.py b/pyswagger/contrib/client/requests.py
index a7bce1d..9bf0a0d 100644
--- a/pyswagger/contrib/client/requests.py
+++ b/pyswagger/contrib/client/requests.py
@@ -43,30 +43,38 @@ class Client(BaseClient):
 
         # prepare for uploaded files
         file_obj = []
+        opened = []
         def append(name, obj):
-            f = obj.data or open(obj.filename, 'rb')
+            f = obj.data
+            if not f:
+                f = open(obj.filename, 'rb')
+                opened.append(f)
             if 'Content-Type' in obj.header:
                 file_obj.append((name, (obj.filename, f, obj.header['Content-Type'])))
             else:
                 file_obj.append((name, (obj.filename, f)))
 
-        for k, v in six.iteritems(req.files):
-            if isinstance(v, list):
-                for vv in v:
-                    append(k, vv)
-            else:
-                append(k, v)
-
-        rq = Request(
-            method=req.method.upper(),
-            url=req.url,
-            params=req.query,
-            data=req.data,
-            headers=composed_headers,
-            files=file_obj
-        )
-        rq = self.__s.prepare_request(rq)
-        rs = self.__s.send(rq, stream=True, **self.__send_opt)
+        try:
+            for k, v in six.iteritems(req.files):
+                if isinstance(v, list):
+                    for vv in v:
+                        append(k, vv)
+                else:
+                    append(k, v)
+
+            rq = Request(
+                method=req.method.upper(),
+                url=req.url,
+                params=req.query,
+                data=req.data,
+                headers=composed_headers,
+                files=file_obj
+            )
+            rq = self.__s.prepare_request(rq)
+            rs = self.__s.send(rq, stream=True, **self.__send_opt)
+        finally:
+            for f in opened:
+                f.close()
 
         resp.apply_with(
             status=rs.status_code,
-- 
2.43.0


From cb42104a75235e172d125edcede8941f0d3f652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 17/62] fix: Renderer ignores bounds of 0

---
 pyswagger/primitives/render.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index d606ea7..0f79c51 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -27,11 +27,11 @@ def _int_(obj, _, val=None):
         return val
 
     max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
-    max_ = obj.maximum if obj.maximum else max_
+    max_ = obj.maximum if obj.maximum is not None else max_
     max_ = max_-1 if obj.exclusiveMaximum else max_
 
     min_ = minInt32 if getattr(obj, 'format') in ['int32', None] else minInt64
-    min_ = obj.minimum if obj.minimum else min_
+    min_ = obj.minimum if obj.minimum is not None else min_
     min_ = min_+1 if obj.exclusiveMinimum else min_
 
     out = random.randint(min_, max_)
@@ -42,8 +42,8 @@ def _float_(obj, _, val=None):
         return val
 
     # TODO: exclusiveMaximum == False is not implemented.
-    max_ = obj.maximum if obj.maximum else sys.float_info.max
-    min_ = obj.minimum if obj.minimum else sys.float_info.min
+    max_ = obj.maximum if obj.maximum is not None else sys.float_info.max
+    min_ = obj.minimum if obj.minimum is not None else min(sys.float_info.min, max_)
 
     out = None
     while out == None:
@@ -58,7 +58,7 @@ def _str_(obj, opt, val=None):
     if val:
         return val
 
-    max_ = obj.maxLength if obj.maxLength else opt['max_str_length']
+    max_ = obj.maxLength if obj.maxLength is not None else opt['max_str_length']
     min_ = obj.minLength if obj.minLength else 0
 
     # note: length is 0~100, characters are limited to ASCII
@@ -208,7 +208,7 @@ class Renderer(object):
 
         elif type_ == 'array':
             min_ = obj.minItems if obj.minItems else 0
-            max_ = obj.maxItems if obj.maxItems else opt['max_array_length']
+            max_ = obj.maxItems if obj.maxItems is not None else opt['max_array_length']
             out = []
             for _ in six.moves.xrange(random.randint(min_, max_)):
                 out.append(self._generate(obj.items, opt))
-- 
2.43.0


From 2941075ae132069a2d6c01223061404e0fb9a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 18/62] fix: Renderer drops falsy enum values

---
 pyswagger/primitives/render.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 0f79c51..5ae7971 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -23,7 +23,7 @@ maxInt64 = 1 << 63 - 1
 minInt64 = -maxInt64
 
 def _int_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
@@ -38,7 +38,7 @@ def _int_(obj, _, val=None):
     return out - (out % obj.multipleOf) if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0 else out
 
 def _float_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     # TODO: exclusiveMaximum == False is not implemented.
@@ -55,7 +55,7 @@ def _float_(obj, _, val=None):
     return float(out)
 
 def _str_(obj, opt, val=None):
-    if val:
+    if val is not None:
         return val
 
     max_ = obj.maxLength if obj.maxLength is not None else opt['max_str_length']
@@ -65,7 +65,7 @@ def _str_(obj, opt, val=None):
     return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
 
 def _bool_(obj, _, val=None):
-    return bool(val) if val else random.randint(0, 1) == 0
+    return bool(val) if val is not None else random.randint(0, 1) == 0
 
 def _uuid_(obj, _, val=None):
     return uuid.UUID(val) if val else uuid.uuid4()
@@ -77,7 +77,7 @@ def _email_name_():
     + random.choice(string.ascii_letters)
 
 def _email_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     host_length = random.randint(2, 100)
-- 
2.43.0


From 8eecee5306e2e6034c29193627f45aaf8ce40fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 19/62] fix: Renderer fails on additionalProperties without
 minProperties

---
 pyswagger/primitives/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 5ae7971..16ddd5a 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -179,7 +179,7 @@ class Renderer(object):
             max_p = opt['max_property']
             out = {}
             max_ = obj.maxProperties if obj.maxProperties else opt['max_prop_count']
-            min_ = obj.minProperties if obj.minProperties else None
+            min_ = obj.minProperties if obj.minProperties else 0
             count = 0
             for name, prop in six.iteritems(obj.properties or {}):
                 if name in template:
-- 
2.43.0


From df7b04f01e0870b21f108864ac1990cc55b2ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 20/62] fix: Renderer rounds to a multiple below the minimum

---
 pyswagger/primitives/render.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 16ddd5a..aaf41df 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -35,7 +35,11 @@ def _int_(obj, _, val=None):
     min_ = min_+1 if obj.exclusiveMinimum else min_
 
     out = random.randint(min_, max_)
-    return out - (out % obj.multipleOf) if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0 else out
+    if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0:
+        out = out - (out % obj.multipleOf)
+        if out < min_:
+            out = out + obj.multipleOf
+    return out
 
 def _float_(obj, _, val=None):
     if val is not None:
@@ -50,6 +54,8 @@ def _float_(obj, _, val=None):
         out = min_ + (max_ - min_) * random.random()
         if obj.multipleOf and obj.multipleOf != 0:
             out = int(out / obj.multipleOf) * obj.multipleOf
+            if out < min_:
+                out = out + obj.multipleOf
         if out <= min_ and obj.exclusiveMinimum:
             out = None
     return float(out)
-- 
2.43.0


From 44b72477de81e71ac291dc9b8cd65e7b18ee206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 21/62] fix: render int32/int64 numbers

---
 pyswagger/primitives/render.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index aaf41df..c8fbb61 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -151,6 +151,8 @@ class Renderer(object):
                 None: _float_,
                 'float': _float_,
                 'double': _float_,
+                'int32': _int_,
+                'int64': _int_,
             },
             'string': {
                 '': _str_,
-- 
2.43.0


From f26a3a30ccf1b5f99b25a0eb791ea0c2a13f8fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 22/62] fix: Renderer fails on minimums beyond its default
 limits

---
 pyswagger/primitives/render.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index c8fbb61..010c4c9 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -64,8 +64,8 @@ def _str_(obj, opt, val=None):
     if val is not None:
         return val
 
-    max_ = obj.maxLength if obj.maxLength is not None else opt['max_str_length']
     min_ = obj.minLength if obj.minLength else 0
+    max_ = obj.maxLength if obj.maxLength is not None else max(min_, opt['max_str_length'])
 
     # note: length is 0~100, characters are limited to ASCII
     return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
@@ -186,8 +186,8 @@ class Renderer(object):
         if type_ == 'object':
             max_p = opt['max_property']
             out = {}
-            max_ = obj.maxProperties if obj.maxProperties else opt['max_prop_count']
             min_ = obj.minProperties if obj.minProperties else 0
+            max_ = obj.maxProperties if obj.maxProperties else max(min_, opt['max_prop_count'])
             count = 0
             for name, prop in six.iteritems(obj.properties or {}):
                 if name in template:
@@ -216,7 +216,7 @@ class Renderer(object):
 
         elif type_ == 'array':
             min_ = obj.minItems if obj.minItems else 0
-            max_ = obj.maxItems if obj.maxItems is not None else opt['max_array_length']
+            max_ = obj.maxItems if obj.maxItems is not None else max(min_, opt['max_array_length'])
             out = []
             for _ in six.moves.xrange(random.randint(min_, max_)):
                 out.append(self._generate(obj.items, opt))
-- 
2.43.0


From dc2b032ea743cf5edeab2cab3bf18075595354f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 23/62] fix: render_all ignores parameters given by reference

---
 pyswagger/primitives/render.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 010c4c9..4a1226a 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -310,6 +310,7 @@ class Renderer(object):
         max_p = opt['max_parameter']
         out = {}
         for p in op.parameters:
+            p = final(deref(p))
             if p.name in exclude:
                 continue
             if p.name in template:
-- 
2.43.0


From 309d8a43861b303c111785b3518353258a6fb377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 24/62] fix: keep leading empty elements when joining arrays

---
 pyswagger/primitives/_array.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index bcbd294..0b66c4c 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -63,10 +63,7 @@ class Array(list):
         :rtype: str
         """
         def _conv(p):
-            s = ''
-            for v in self:
-                s = ''.join([s, p if s else '', str(v)])
-            return s
+            return p.join([str(v) for v in self])
 
         if self.__collection_format == 'csv':
             return _conv(',')
-- 
2.43.0


From 8eb32c7ebaefd927578bb5c825cb14e534d4b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 25/62] fix: accept required properties that are additional
 properties

---
 pyswagger/primitives/_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 360cd71..f44a69a 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -44,7 +44,8 @@ class Model(dict):
             if p.is_set("default"):
                 self[k] = ctx['factory'].produce(p, p.default)
 
-        not_found = set(obj.required) - set(six.iterkeys(self))
+        # a required property is not necessarily declared in 'properties'
+        not_found = set(obj.required) - set(six.iterkeys(self)) - set(six.iterkeys(val))
         if len(not_found):
             raise ValueError('Model missing required key(s): {0}'.format(', '.join(not_found)))
 
-- 
2.43.0


From 0454e232b63049dbeaf891a337197768197b9e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 26/62] fix: apply all members of allOf once, nested ones
 included

---
 pyswagger/primitives/__init__.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index edac8cd..68f3ea4 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -18,6 +18,19 @@ import functools
 # TODO: enum is suitable for all types, not only string
 
 
+def _members(obj):
+    """ all Schema Objects reachable via 'allOf', each of them once
+    """
+    ret, stk = [], [deref(a) for a in reversed(obj.allOf)]
+    while len(stk) > 0:
+        a = stk.pop()
+        if a == obj or a in ret:
+            continue
+        ret.append(a)
+        stk.extend([deref(aa) for aa in reversed(a.allOf or [])])
+    return ret
+
+
 class Primitive(object):
     """ primitive factory
     """
@@ -195,6 +208,9 @@ class Primitive(object):
             if _2nd:
                 val = _2nd(obj, ret, val, ctx)
                 ctx['2nd_pass'] = _2nd
+        elif obj.allOf and not hasattr(val, 'keys'):
+            # not a Model, the type would be found in 'allOf'
+            pass
         elif len(obj.properties) or obj.additionalProperties:
             ret = Model()
             val = ret.apply_with(obj, val, ctx)
@@ -220,20 +236,18 @@ class Primitive(object):
         allOf = getattr(obj, 'allOf', None)
         if allOf:
             not_applied = []
-            for a in allOf:
-                a = deref(a)
-                if not ret:
+            for a in _members(obj):
+                if ret is not None:
+                    val = _apply(a, ret, val, ctx)
+                elif a.type or hasattr(val, 'keys'):
                     # try to find right type for this primitive.
                     ret = self.produce(a, val, ctx)
-                    is_member = hasattr(ret, 'apply_with')
-                else:
-                    val = _apply(a, ret, val, ctx)
 
-                if not ret:
+                if ret is None:
                     # if we still can't determine the type,
                     # keep this Schema object for later use.
                     not_applied.append(a)
-            if ret:
+            if ret is not None:
                 for a in not_applied:
                     val = _apply(a, ret, val, ctx)
 
-- 
2.43.0


From 6317c48a1cc06926f6e1c66919490baebbe19a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:29 +0000
Subject: [PATCH 27/62] fix: percent-encode spaces in path parameters

---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 75569c2..20c3e62 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -195,7 +195,7 @@ class Request(object):
         # TODO: 'dot' is allowed in swagger, but it won't work in python-format
         path_params = {}
         for k, v in six.iteritems(self.__p['path']):
-            path_params[k] = six.moves.urllib.parse.quote_plus(v)
+            path_params[k] = six.moves.urllib.parse.quote(v, safe='')
 
         self.__path = self.__path.format(**path_params)
 
-- 
2.43.0


From b4c59c4f6e890b48b4820e226f1f759b5f796919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:29 +0000
Subject: [PATCH 28/62] fix: path parameter names with dot or digits

---
 pyswagger/io.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 20c3e62..676d2ce 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -5,6 +5,7 @@ from pyswagger import errs
 from uuid import uuid4
 import six
 import io, codecs
+import re
 import collections
 import logging
 
@@ -192,15 +193,18 @@ class Request(object):
             raise ValueError('"scheme" should be a list or string')
 
         # combine path parameters into path
-        # TODO: 'dot' is allowed in swagger, but it won't work in python-format
         path_params = {}
         for k, v in six.iteritems(self.__p['path']):
             path_params[k] = six.moves.urllib.parse.quote(v, safe='')
 
-        self.__path = self.__path.format(**path_params)
+        # not python-format: parameter names may contain dot, or be digits.
+        def _fill(template):
+            return re.sub(r'{([^{}]+)}', lambda m: path_params[m.group(1)], template)
+
+        self.__path = _fill(self.__path)
 
         # combine path parameters into url
-        self.__url = ''.join([scheme, ':', self.__url.format(**path_params)])
+        self.__url = ''.join([scheme, ':', _fill(self.__url)])
 
         # header parameters
         self.__header.update(self.__p['header'])
-- 
2.43.0


From 18d556f66ccb5256707c0182eb0ec7b3007697f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:33 +0000
Subject: [PATCH 29/62] fix: upgrade authorizations of API declarations

---
 pyswagger/scanner/v1_2/upgrade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 535f3ab..cd06f77 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -165,7 +165,8 @@ class Upgrade(object):
         _auth = obj.authorizations if obj.authorizations and len(obj.authorizations) > 0 else obj._parent_.authorizations
         if _auth:
             for name, scopes in six.iteritems(_auth):
-                o.security.append({name: [v.scope for v in scopes]})
+                # those of resource objects are not parsed
+                o.security.append({name: [v['scope'] if isinstance(v, dict) else v.scope for v in scopes]})
 
         # Operation return value
         o.update_field('responses', {})
-- 
2.43.0


From 8c3100a18c0f6dafe2260920e40fc0d5e1bfb907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 30/62] fix: send forms by the flask client

---
 pyswagger/contrib/client/flask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 24cee92..f1f8e09 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -60,7 +60,7 @@ class FlaskTestClient(BaseClient):
                     )
 
         else:
-            data = req.data if req._p['body'] else req._p['formData']
+            data = req.data
 
         r = self.__client.open(
             path=req.url,
-- 
2.43.0


From 4b585fc4c56dc417ba0310ea494794dde7f63c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 31/62] fix: keep repeated form fields beside files in the
 flask client

---
 pyswagger/contrib/client/flask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index f1f8e09..499e34b 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -41,7 +41,8 @@ class FlaskTestClient(BaseClient):
         if req.files:
             data = {}
             # form
-            data.update(req._p['formData'])
+            for k, v in req._p['formData']:
+                data.setdefault(k, []).append(v)
             # file
             for k, v in six.iteritems(req.files):
                 if isinstance(v, list):
-- 
2.43.0


From 08eec8012952414496522da119567d3f7250dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 32/62] fix: send the content and type of files by the flask
 client

---
 pyswagger/contrib/client/flask.py | 71 +++++++++++++++++--------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 499e34b..7e25035 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -37,40 +37,47 @@ class FlaskTestClient(BaseClient):
 
         composed_headers = self.compose_headers(req, headers, opt)
 
-        # prepare data, flask's data is composed of form and file
-        if req.files:
-            data = {}
-            # form
-            for k, v in req._p['formData']:
-                data.setdefault(k, []).append(v)
-            # file
-            for k, v in six.iteritems(req.files):
-                if isinstance(v, list):
-                    data[k] = []
-                    for vv in v:
-                        data[k].append(FileStorage(
-                            name=k,
-                            filename=vv.filename,
-                            stream=vv.data
-                        ))
-                else:
-                    data[k] = FileStorage(
-                        name=k,
-                        filename=v.filename,
-                        stream=v.data
-                    )
-
-        else:
-            data = req.data
-
-        r = self.__client.open(
-            path=req.url,
-            query_string=req.query,
-            method=req.method.upper(),
-            headers=composed_headers,
-            data=data
+        opened = []
+        def _storage(name, obj):
+            stream = obj.data
+            if not stream:
+                stream = open(obj.filename, 'rb')
+                opened.append(stream)
+            return FileStorage(
+                name=name,
+                filename=obj.filename,
+                stream=stream,
+                content_type=obj.header.get('Content-Type', None)
             )
 
+        try:
+            # prepare data, flask's data is composed of form and file
+            if req.files:
+                data = {}
+                # form
+                for k, v in req._p['formData']:
+                    data.setdefault(k, []).append(v)
+                # file
+                for k, v in six.iteritems(req.files):
+                    if isinstance(v, list):
+                        data[k] = [_storage(k, vv) for vv in v]
+                    else:
+                        data[k] = _storage(k, v)
+
+            else:
+                data = req.data
+
+            r = self.__client.open(
+                path=req.url,
+                query_string=req.query,
+                method=req.method.upper(),
+                headers=composed_headers,
+                data=data
+                )
+        finally:
+            for f in opened:
+                f.close()
+
         # convert to Response
         resp.apply_with(
             status=r.status_code,
-- 
2.43.0


From 339750869a4d3bbe4572ef0bfcfec504e9083ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:10 +0000
Subject: [PATCH 33/62] fix: send POST without payload and GET with payload by
 the tornado client

---
 pyswagger/contrib/client/tornado.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/contrib/client/tornado.py b/pyswagger/contrib/client/tornado.py
index 4acac00..2ab2f3d 100644
--- a/pyswagger/contrib/client/tornado.py
+++ b/pyswagger/contrib/client/tornado.py
@@ -45,7 +45,9 @@ class TornadoClient(BaseClient):
             url=url,
             method=req.method.upper(),
             headers=tornado_headers,
-            body=req.data
+            body=req.data,
+            # an operation decides if there is a payload, not its method
+            allow_nonstandard_methods=True
             )
         rs = yield self.__client.fetch(rq)
 
-- 
2.43.0


From 2bb57c84b6a3ef0aba8af51bf5845b66a5149264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:53 +0000
Subject: [PATCH 34/62] fix: resolve references inside of path items given by
 reference

---
 pyswagger/scan.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyswagger/scan.py b/pyswagger/scan.py
index f75339e..d53e389 100644
--- a/pyswagger/scan.py
+++ b/pyswagger/scan.py
@@ -9,15 +9,17 @@ def default_tree_traversal(root, leaves):
     while len(objs) > 0:
         path, obj = objs.pop()
 
+        # the path we expose here follows JsonPointer described here
+        #   http://tools.ietf.org/html/draft-ietf-appsawg-json-pointer-07
+        yield path, obj
+
+        # look for children after obj is handled, handlers might add new ones.
+        #
         # name of child are json-pointer encoded, we don't have
         # to encode it again.
         if obj.__class__ not in leaves:
             objs.extend(map(lambda i: (path + '/' + i[0],) + (i[1],), six.iteritems(obj._children_)))
 
-        # the path we expose here follows JsonPointer described here
-        #   http://tools.ietf.org/html/draft-ietf-appsawg-json-pointer-07
-        yield path, obj
-
 
 class DispatcherMeta(type):
     """ metaclass for Dispatcher
-- 
2.43.0


From 158cc291a8d187758c44f51403c3d21380707dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 35/62] fix: keep the slash single in references relative to a
 document in the root folder

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 7e7e1d8..b4e1012 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -387,7 +387,7 @@ def normalize_jr(jr, url=None):
         if p.scheme == '' and url:
             p = six.moves.urllib.parse.urlparse(url)
             # it's the path of relative file
-            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path), path]),)+p[3:])
+            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path).rstrip('/'), path]),)+p[3:])
             path = derelativise_url(path)
     else:
         path = url
-- 
2.43.0


From a447796f2240c5f156f345ca76c4d95383d29bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 36/62] fix: resolve references to fractional numbers

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index cc838a1..66b7e91 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -421,7 +421,7 @@ class App(object):
         if obj == None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
 
-        if isinstance(obj, (six.string_types, six.integer_types, list, dict)):
+        if isinstance(obj, (six.string_types, six.integer_types, float, list, dict)):
             return obj
         return weakref.proxy(obj)
 
-- 
2.43.0


From 0823bda66acadaa5940ad213a5f47a80ca9cead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:40 +0000
Subject: [PATCH 37/62] fix: load files whose path needs escaping in a URL

---
 pyswagger/getter.py  | 2 +-
 pyswagger/resolve.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 9f5e329..1c68d3f 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -67,7 +67,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 9597d9e..c3017d0 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -51,7 +51,7 @@ class Resolver(object):
                 getter = self.__default_getter or UrlGetter
                 p = six.moves.urllib.parse.urlparse(local_url)
                 if p.scheme == 'file' and p.path:
-                    getter = LocalGetter(os.path.join(p.netloc, p.path))
+                    getter = LocalGetter(six.moves.urllib.parse.unquote(os.path.join(p.netloc, p.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From c67e3d64e785bf7b8344d6721ae2012e665f2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:10 +0000
Subject: [PATCH 38/62] fix: load documents from folders whose name ends like a
 document

---
 pyswagger/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index b4e1012..dc4851f 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -573,13 +573,13 @@ def get_or_none(obj, *a):
     return ret
 
 def patch_path(base_path, path):
-    # try to get extension from base_path
-    _, ext = os.path.splitext(base_path)
+    # try to get extension from path
+    _, ext = os.path.splitext(path)
     if ext not in private.VALID_FILE_EXT:
         ext = ''
 
-    # try to get extension from path
-    _, ext = os.path.splitext(path) if ext == '' else (None, ext)
+    # try to get extension from base_path
+    _, ext = os.path.splitext(base_path) if ext == '' else (None, ext)
     if ext not in private.VALID_FILE_EXT:
         ext = ''
 
-- 
2.43.0


From feab0442f65db90d7bd57e72d249c407a493d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:36 +0000
Subject: [PATCH 39/62] fix: an empty consumes or produces of an operation
 clears the global one

---
 pyswagger/scanner/v2_0/patch_obj.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index e4b1d2b..3d043f9 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -21,9 +21,11 @@ class PatchObject(object):
         """
         """
         if isinstance(app.root, Swagger):
-            # produces/consumes
-            obj.update_field('produces', app.root.produces if len(obj.produces) == 0 else obj.produces)
-            obj.update_field('consumes', app.root.consumes if len(obj.consumes) == 0 else obj.consumes)
+            # produces/consumes, an empty list clears the global definition
+            if not obj.is_set('produces'):
+                obj.update_field('produces', app.root.produces)
+            if not obj.is_set('consumes'):
+                obj.update_field('consumes', app.root.consumes)
 
         # combine parameters from PathItem
         if obj._parent_:
-- 
2.43.0


From c9a78ca02b8ba424f0adb404abc9b2b7e1ebe0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:09 +0000
Subject: [PATCH 40/62] fix: detect schema circles behind parameters and
 responses of other documents

---
 pyswagger/scanner/cycle_detector.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyswagger/scanner/cycle_detector.py b/pyswagger/scanner/cycle_detector.py
index 893a687..f77b087 100644
--- a/pyswagger/scanner/cycle_detector.py
+++ b/pyswagger/scanner/cycle_detector.py
@@ -68,6 +68,18 @@ class CycleDetector(object):
             self.cycles['schema']
         )
 
+    @Disp.register([Parameter, Response])
+    def _merged_schema(self, _, obj, app):
+        # the schema of a parameter or response given by reference might be
+        # in another document, and not visited as a Schema Object of this one.
+        schema = obj.final.schema if obj.final else None
+        for r in _schema_out_obj(schema) if schema else []:
+            self.cycles['schema'] = walk(
+                r,
+                functools.partial(_schema_out, app),
+                self.cycles['schema']
+            )
+
     @Disp.register([Parameter])
     def _parameter(self, path, _, app):
          self.cycles['parameter'] = walk(
-- 
2.43.0


From 4ed89f774ae5f549889ac8f4faeda2d83accbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:47 +0000
Subject: [PATCH 41/62] fix: keep the precision of integer limits when
 upgrading from 1.2

---
 pyswagger/scanner/v1_2/upgrade.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index cd06f77..b792ba3 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -33,8 +33,11 @@ def convert_min_max(dst, src):
         if v is not None and v != '':
             if src.type == 'integer':
                 # we need to handle 1.0 when converting to int
-                # that's why we need to convert to float first
-                dst.update_field(name, int(float(v)))
+                # that's why we may need to convert to float first
+                try:
+                    dst.update_field(name, int(v))
+                except ValueError:
+                    dst.update_field(name, int(float(v)))
             elif src.type == 'number':
                 dst.update_field(name, float(v))
             else:
-- 
2.43.0


From c24a92d35641aef4befe2d38880ec1c89788cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:47 +0000
Subject: [PATCH 42/62] fix: keep minimum and maximum of allowMultiple
 parameters when upgrading from 1.2

---
 pyswagger/scanner/v1_2/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index b792ba3..34b8eb5 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -238,6 +238,7 @@ class Upgrade(object):
                 if obj.is_set("defaultValue"):
                     o.update_field('default', [obj.defaultValue])
                 o.items.update_field('enum', obj.enum)
+                convert_min_max(o.items, obj)
             else:
                 o.update_field('type', obj.type.lower())
                 o.update_field('format', obj.format)
-- 
2.43.0


From c50ce41a4f5ab469b913b1529d6c3f92cd89e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:13 +0000
Subject: [PATCH 43/62] fix: decode names of nested resources and
 authorizations when upgrading from 1.2

---
 pyswagger/scanner/v1_2/upgrade.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 34b8eb5..592a5b3 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -2,7 +2,7 @@ from __future__ import absolute_import
 from ...spec.base import NullContext
 from ...scan import Dispatcher
 from ...errs import SchemaError
-from ...utils import scope_compose, get_or_none
+from ...utils import scope_compose, get_or_none, jp_compose, jp_split
 from ...consts import private
 from ...spec.v1_2.objects import (
     ResourceList,
@@ -17,15 +17,22 @@ import os
 import six
 
 
+def get_name(obj, path):
+    """ get the name of an object, names that are taken
+    from json-pointers need to be decoded.
+    """
+    name = obj.get_name(path)
+    return jp_split(name)[0] if name else name
+
 def update_type_and_ref(dst, src, scope, sep, app):
     ref = getattr(src, '$ref')
     if ref:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, ref, sep=sep))
+        dst.update_field('$ref', jp_compose(scope_compose(scope, ref, sep=sep), base='#/definitions'))
 
     if app.prim_factory.is_primitive(getattr(src, 'type', None)):
         dst.update_field('type', src.type.lower())
     elif src.type:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, src.type, sep=sep))
+        dst.update_field('$ref', jp_compose(scope_compose(scope, src.type, sep=sep), base='#/definitions'))
 
 def convert_min_max(dst, src):
     def _from_str(name):
@@ -135,7 +142,7 @@ class Upgrade(object):
 
     @Disp.register([Resource])
     def _resource(self, path, obj, app):
-        name = obj.get_name(path)
+        name = get_name(obj, path)
         for t in self.__swagger.tags:
             if t.name == name:
                 break
@@ -147,7 +154,7 @@ class Upgrade(object):
     @Disp.register([Operation])
     def _operation(self, path, obj, app):
         o = objects.Operation(NullContext())
-        scope = obj._parent_.get_name(path)
+        scope = get_name(obj._parent_, path)
 
         o.update_field('tags', [scope])
         o.update_field('operationId', obj.nickname)
@@ -208,12 +215,12 @@ class Upgrade(object):
             o.update_field('name', obj.keyname)
             o.update_field('in', obj.passAs)
 
-        self.__swagger.securityDefinitions[obj.get_name(path)] = o
+        self.__swagger.securityDefinitions[get_name(obj, path)] = o
 
     @Disp.register([Parameter])
     def _parameter(self, path, obj, app):
         o = objects.Parameter(NullContext())
-        scope = obj._parent_._parent_.get_name(path)
+        scope = get_name(obj._parent_._parent_, path)
 
         o.update_field('name', obj.name)
         o.update_field('required', obj.required)
@@ -259,7 +266,7 @@ class Upgrade(object):
 
     @Disp.register([Model])
     def _model(self, path, obj, app):
-        scope = obj._parent_.get_name(path)
+        scope = get_name(obj._parent_, path)
 
         s = scope_compose(scope, obj.get_name(path), sep=self.__sep)
         o = self.__swagger.definitions.get(s, None)
@@ -286,7 +293,7 @@ class Upgrade(object):
                 self.__swagger.definitions[sub_s] = sub_o
 
             new_ref = objects.Schema(NullContext())
-            new_ref.update_field('$ref', '#/definitions/' + s)
+            new_ref.update_field('$ref', jp_compose(s, base='#/definitions'))
             sub_o.allOf.append(new_ref)
 
     @property
-- 
2.43.0


From 50d5e4bde40429fe59eac66b2450fba8afc59858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:50 +0000
Subject: [PATCH 44/62] fix: do not cut paths of different hosts when upgrading
 from 1.2

---
 pyswagger/scanner/v1_2/upgrade.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 592a5b3..0cbdc76 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -13,7 +13,6 @@ from ...spec.v1_2.objects import (
     Model,
 )
 from ...spec.v2_0 import objects
-import os
 import six
 
 
@@ -304,20 +303,19 @@ class Upgrade(object):
         if not self.__swagger:
             return None
 
-        common_path = os.path.commonprefix(list(self.__swagger.paths))
-        # remove tailing slash,
-        # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path.endswith('/') else common_path
+        hosts = set()
+        new_path = {}
+        for k, v in six.iteritems(self.__swagger.paths):
+            p = six.moves.urllib.parse.urlparse(k)
+            hosts.add((p.scheme, p.netloc))
+            new_path[k[len(six.moves.urllib.parse.urlunparse((
+                p.scheme, p.netloc, '', '', '', ''))):]] = v
 
-        if len(common_path) > 0:
-            p = six.moves.urllib.parse.urlparse(common_path)
-            self.__swagger.update_field('host', p.netloc)
+        if len(hosts) > 1:
+            raise SchemaError('operations from different hosts: {0}'.format(sorted(hosts)))
 
-            new_common_path = six.moves.urllib.parse.urlunparse((
-                p.scheme, p.netloc, '', '', '', ''))
-            new_path = {}
-            for k in self.__swagger.paths.keys():
-                new_path[k[len(new_common_path):]] = self.__swagger.paths[k]
+        if len(hosts) > 0:
+            self.__swagger.update_field('host', hosts.pop()[1])
             self.__swagger.update_field('paths', new_path)
 
         return self.__swagger
-- 
2.43.0


From 1487e42ae4286656dc9c25ef74325448c9904620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:29 +0000
Subject: [PATCH 45/62] fix: validate File parameters of operations without
 consumes

---
 pyswagger/scanner/v1_2/validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index 6c84251..82ec4cb 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -66,7 +66,8 @@ class Validate(object):
         if obj.type == 'File':
             if obj.paramType != 'form':
                 errs.append('File parameter should be form type: {0}'.format(obj.name))
-            if 'multipart/form-data' not in obj._parent_.consumes:
+            op = obj._parent_
+            if 'multipart/form-data' not in (op.consumes or op._parent_.consumes or []):
                 errs.append('File parameter should consume multipart/form-data: {0}'.format(obj.name))
 
         if obj.type == 'void':
-- 
2.43.0


From 811c27631a605ad5bf073f0a3cab77c75f310d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:40 +0000
Subject: [PATCH 46/62] fix: report items without type and reference

---
 pyswagger/scanner/v1_2/validate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index 82ec4cb..e4646da 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -90,6 +90,9 @@ class Validate(object):
         """ validate option combination of Property object """
         errs = []
 
+        if obj.type == None and getattr(obj, '$ref') == None:
+            errs.append('type or $ref should be existed.')
+
         if obj.type == 'void':
             errs.append('void is only allowed in Operation object.')
 
-- 
2.43.0


From f438d10be59ddbe9a534d0ecddab15eb667effff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:51 +0000
Subject: [PATCH 47/62] fix: report operations of an API without path

---
 pyswagger/scanner/v1_2/validate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index e4646da..f7dcd87 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -197,6 +197,11 @@ class Validate(object):
     def operation_require(self, path, obj, _):
         return self._check_reqs(path, obj, ['method', 'nickname', 'parameters'])
 
+    @Disp.register([Operation])
+    def operation_path_require(self, path, obj, _):
+        # Api objects are replaced by their operations
+        return self._check_reqs(path, obj, ['path'])
+
     @Disp.register([Api])
     def api_require(self, path, obj, _):
         return self._check_reqs(path, obj, ['path', 'operations'])
-- 
2.43.0


From 1681d88dd60bed23b140518ec0a19952cc06533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 48/62] fix: render integers with only one limit declared

The default of the other limit could lie on the wrong side of the declared one, and random.randint raised.
---
 pyswagger/primitives/render.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 4a1226a..c886318 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -26,11 +26,16 @@ def _int_(obj, _, val=None):
     if val is not None:
         return val
 
+    # keep the range non-empty when only one of the limits is declared
+    step = obj.multipleOf if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf else 1
+
     max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
+    max_ = max_ if obj.minimum is None else max(max_, obj.minimum+step+1)
     max_ = obj.maximum if obj.maximum is not None else max_
     max_ = max_-1 if obj.exclusiveMaximum else max_
 
     min_ = minInt32 if getattr(obj, 'format') in ['int32', None] else minInt64
+    min_ = min_ if obj.maximum is None else min(min_, obj.maximum-step-1)
     min_ = obj.minimum if obj.minimum is not None else min_
     min_ = min_+1 if obj.exclusiveMinimum else min_
 
-- 
2.43.0


From 71b33f35229ea8e8c2ae6e793b613e980a24a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:31 +0000
Subject: [PATCH 49/62] fix: render numbers within all of their limits

exclusiveMaximum was ignored, a maximum below the smallest positive float without a minimum gave only that maximum or an
endless loop, and multiples were rounded towards zero, out of the range or to an overflow.
---
 pyswagger/primitives/render.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index c886318..dbaf42a 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -50,19 +50,26 @@ def _float_(obj, _, val=None):
     if val is not None:
         return val
 
-    # TODO: exclusiveMaximum == False is not implemented.
-    max_ = obj.maximum if obj.maximum is not None else sys.float_info.max
-    min_ = obj.minimum if obj.minimum is not None else min(sys.float_info.min, max_)
+    # make sure some value is left when only one of the limits is declared
+    step = obj.multipleOf or 0
+    max_ = obj.maximum
+    if max_ is None:
+        max_ = max(obj.minimum or 0, 0) + step * maxInt32 if step else sys.float_info.max
+    min_ = obj.minimum
+    if min_ is None:
+        min_ = max(min(sys.float_info.min, max_ - max(abs(max_), step, 1)), -sys.float_info.max)
 
     out = None
     while out == None:
-        out = min_ + (max_ - min_) * random.random()
-        if obj.multipleOf and obj.multipleOf != 0:
-            out = int(out / obj.multipleOf) * obj.multipleOf
-            if out < min_:
-                out = out + obj.multipleOf
+        out = min(min_ + (max_ - min_) * random.random(), max_)
+        if step:
+            out = out - (out % step)
+            if out < min_ or (out == min_ and obj.exclusiveMinimum):
+                out = out + step
         if out <= min_ and obj.exclusiveMinimum:
             out = None
+        elif out >= max_ and obj.exclusiveMaximum:
+            out = None
     return float(out)
 
 def _str_(obj, opt, val=None):
-- 
2.43.0


From 064b169c5bfd063374b0f8741fa57ce76fcc6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:45 +0000
Subject: [PATCH 50/62] fix: keep an empty member of an enum of bytes when
 rendering

---
 pyswagger/primitives/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index dbaf42a..5b03459 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -109,7 +109,7 @@ def _email_(obj, _, val=None):
         + ''.join([random.choice(names) for _ in six.moves.xrange(region_length)])
 
 def _byte_(obj, opt, val=None):
-    return val if val else base64.b64encode(
+    return val if val is not None else base64.b64encode(
         six.b(''.join([random.choice(string.ascii_letters) for _ in range(random.randint(0, opt['max_byte_length']))]))
     )
 
-- 
2.43.0


From 564d69a19323e7cc3ec786da5d415aea89d982b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:45 +0000
Subject: [PATCH 51/62] fix: do not give a random name of additionalProperties
 to a declared property

---
 pyswagger/primitives/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 5b03459..d35f676 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -222,7 +222,7 @@ class Renderer(object):
                         while True:
                             length = random.randint(0, opt['max_name_length'])
                             name = ''.join([random.choice(string.ascii_letters) for _ in six.moves.xrange(length)])
-                            if name not in out:
+                            if name not in out and name not in (obj.properties or {}):
                                 out[name] = self._generate(obj.additionalProperties, opt)
                                 break
 
-- 
2.43.0


From ad14f02a203240255e1401334988189be25af1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:45 +0000
Subject: [PATCH 52/62] fix: obey uniqueItems when rendering arrays

---
 pyswagger/primitives/render.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index d35f676..3c8dfd5 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -230,8 +230,18 @@ class Renderer(object):
             min_ = obj.minItems if obj.minItems else 0
             max_ = obj.maxItems if obj.maxItems is not None else max(min_, opt['max_array_length'])
             out = []
-            for _ in six.moves.xrange(random.randint(min_, max_)):
-                out.append(self._generate(obj.items, opt))
+            size, retry = random.randint(min_, max_), 0
+            while len(out) < size:
+                item = self._generate(obj.items, opt)
+                if not obj.uniqueItems or item not in out:
+                    out.append(item)
+                elif len(out) >= min_:
+                    # there may not be enough distinct items
+                    break
+                else:
+                    retry = retry + 1
+                    if retry > 10000:
+                        raise Exception('Unable to render {0} distinct items: {1}'.format(min_, obj))
 
         elif type_ != None:
             out = None
-- 
2.43.0


From c9e291a1be4bc9f39038d9ed9c3ed0ff5efb30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:21 +0000
Subject: [PATCH 53/62] fix: end rendering of recursive models

Documents with recursive models can be prepared without strict; rendering them grew without end. Inside of itself, an object is rendered with what is required only.
---
 pyswagger/primitives/render.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 3c8dfd5..b8bd316 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -190,8 +190,12 @@ class Renderer(object):
         r = self._map.get(_type, None)
         return None if r == None else r.get(_format, None)
 
-    def _generate(self, obj, opt):
+    def _generate(self, obj, opt, parents=()):
         obj = final(deref(obj))
+        # only what is required is rendered for an object inside of itself,
+        # or rendering a recursive model would never end.
+        nested = obj in parents
+        parents = parents + (obj,)
         type_ = getattr(obj, 'type', None)
         template = opt['object_template']
         out = None
@@ -205,17 +209,19 @@ class Renderer(object):
                 if name in template:
                     out[name] = template[name]
                     continue
+                if nested and not name in obj.required:
+                    continue
                 if not max_p and not name in obj.required:
                     if random.randint(0, 1) == 0 or opt['minimal_property']:
                         continue
-                out[name] = self._generate(prop, opt)
+                out[name] = self._generate(prop, opt, parents)
                 count = count + 1
 
             if isinstance(obj.additionalProperties, Schema):
                 # TODO: additionalProperties == True is not handled
 
                 # generate random properties
-                more = random.randint(min_, max_) - count
+                more = random.randint(min_, min_ if nested else max_) - count
                 if more > 0:
                     # generate a random string as property-name
                     for _ in six.moves.xrange(more):
@@ -223,16 +229,16 @@ class Renderer(object):
                             length = random.randint(0, opt['max_name_length'])
                             name = ''.join([random.choice(string.ascii_letters) for _ in six.moves.xrange(length)])
                             if name not in out and name not in (obj.properties or {}):
-                                out[name] = self._generate(obj.additionalProperties, opt)
+                                out[name] = self._generate(obj.additionalProperties, opt, parents)
                                 break
 
         elif type_ == 'array':
             min_ = obj.minItems if obj.minItems else 0
             max_ = obj.maxItems if obj.maxItems is not None else max(min_, opt['max_array_length'])
             out = []
-            size, retry = random.randint(min_, max_), 0
+            size, retry = random.randint(min_, min_ if nested else max_), 0
             while len(out) < size:
-                item = self._generate(obj.items, opt)
+                item = self._generate(obj.items, opt, parents)
                 if not obj.uniqueItems or item not in out:
                     out.append(item)
                 elif len(out) >= min_:
-- 
2.43.0


From c72e699fd049ca32a6d98b02d93140c850110f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:51 +0000
Subject: [PATCH 54/62] fix: read local documents as UTF-8 whatever the locale
 is

---
 pyswagger/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 1c68d3f..15552c9 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -110,7 +110,8 @@ class LocalGetter(Getter):
         logger.info('final path to load: [{0}]'.format(path))
 
         ret = None
-        with open(path, 'r') as f:
+        # raw bytes, they are decoded as utf-8 later: the locale should not decide.
+        with open(path, 'rb') as f:
             ret = f.read()
         return ret
 
-- 
2.43.0


From 42bf3f6f25ac1d6ed483c146d8419d0e9c3a46d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:43 +0000
Subject: [PATCH 55/62] fix: keys of YAML documents that look like numbers are
 names

---
 pyswagger/getter.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 15552c9..faf6015 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -12,6 +12,31 @@ import re
 logger = logging.getLogger(__name__)
 
 
+def _text_keys(obj):
+    """ keys of objects are always text in JSON, but might be loaded
+    as integers from YAML, ex. status codes.
+    """
+    todo, done = [obj], set()
+    while todo:
+        cur = todo.pop()
+        # with anchors, parts of YAML could be shared, or even circular.
+        if id(cur) in done:
+            continue
+        done.add(id(cur))
+
+        if isinstance(cur, dict):
+            items = list(six.iteritems(cur))
+            if any(isinstance(k, six.integer_types) and not isinstance(k, bool) for k, _ in items):
+                cur.clear()
+                for k, v in items:
+                    cur[str(k) if isinstance(k, six.integer_types) and not isinstance(k, bool) else k] = v
+            todo.extend([v for _, v in items])
+        elif isinstance(cur, list):
+            todo.extend(cur)
+
+    return obj
+
+
 class Getter(six.Iterator):
     """ base of getter object
 
@@ -45,7 +70,7 @@ class Getter(six.Iterator):
                 if obj.startswith('{'):
                     obj = json.loads(obj)
                 else:
-                    obj = yaml.safe_load(obj)
+                    obj = _text_keys(yaml.safe_load(obj))
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(obj[:10]))
 
-- 
2.43.0


From 80306511f040773a9d83980d26173d5f50b5885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:40 +0000
Subject: [PATCH 56/62] fix: App.resolve raises ValueError for paths that do
 not exist, as documented

---
 pyswagger/core.py    | 12 +++++++++---
 pyswagger/resolve.py |  9 +++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 66b7e91..857550a 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -387,6 +387,12 @@ class App(object):
         if jref == None or len(jref) == 0:
             raise ValueError('Empty Path is not allowed')
 
+        def _get(o, ts):
+            try:
+                return o.resolve(ts)
+            except (AttributeError, KeyError, IndexError, ValueError):
+                raise ValueError('Unable to resolve path, [{0}]'.format(jref))
+
         obj = None
         url, jp = utils.jr_split(jref)
 
@@ -396,11 +402,11 @@ class App(object):
         o = self.__objs.get(url, None)
         if o:
             if isinstance(o, BaseObj):
-                obj = o.resolve(utils.jp_split(jp)[1:])
+                obj = _get(o, utils.jp_split(jp)[1:])
             elif isinstance(o, dict):
                 for k, v in six.iteritems(o):
                     if jp == k or jp.startswith(k + '/'):
-                        obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
+                        obj = _get(v, utils.jp_split(jp[len(k):])[1:])
                         break
             else:
                 raise Exception('Unknown Cached Object: {0}'.format(str(type(o))))
@@ -416,7 +422,7 @@ class App(object):
                 if not jp.startswith('#'):
                     raise ValueError('Invalid Path, root element should be \'#\', but [{0}]'.format(jref))
 
-                obj = self.root.resolve(utils.jp_split(jp)[1:]) # heading element is #, mapping to self.root
+                obj = _get(self.root, utils.jp_split(jp)[1:]) # heading element is #, mapping to self.root
 
         if obj == None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index c3017d0..a7ad400 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -66,10 +66,11 @@ class Resolver(object):
             ts = jp_split(jp)[1:]
             while len(ts) > 0:
                 t = ts.pop(0)
-                if isinstance(obj, list):
-                    obj = obj[int(t)]
-                elif isinstance(obj, dict):
-                    obj = obj[t]
+                if isinstance(obj, (list, dict)):
+                    try:
+                        obj = obj[int(t)] if isinstance(obj, list) else obj[t]
+                    except (KeyError, IndexError, ValueError):
+                        raise ValueError('Unable to resolve: {0}'.format(jref))
                 else:
                     raise Exception('Invalid type to resolve json-pointer: {0}'.format(str(type(obj))))
         else:
-- 
2.43.0


From 4c60ce834bcdf375d8df24f9d852db2f07a3e879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 57/62] fix: a document that is no mapping has no version,
 instead of AttributeError

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index dc4851f..81698cf 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -434,7 +434,7 @@ def get_swagger_version(obj):
         return None
     else:
         # should be an instance of BaseObj
-        return obj.swaggerVersion if hasattr(obj, 'swaggerVersion') else obj.swagger
+        return obj.swaggerVersion if hasattr(obj, 'swaggerVersion') else getattr(obj, 'swagger', None)
 
 def walk(start, ofn, cyc=None):
     """ Non recursive DFS to detect cycles
-- 
2.43.0


From c326e97f84e6e0a715268c9f1d97ba07b880244f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 05:49:24 +0000
Subject: [PATCH 58/62] fix: names of upgraded models are cut at the separator
 of the application

---
 pyswagger/core.py                   | 2 +-
 pyswagger/scanner/v2_0/patch_obj.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 857550a..7bfff36 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -327,7 +327,7 @@ class App(object):
 
         s = Scanner(self)
         s.scan(root=self.__root, route=[Merge()])
-        s.scan(root=self.__root, route=[PatchObject()])
+        s.scan(root=self.__root, route=[PatchObject(self.__sep)])
         s.scan(root=self.__root, route=[Aggregate()])
 
         # reducer for Operation
diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index 3d043f9..3ed4c3e 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -1,4 +1,5 @@
 from __future__ import absolute_import
+from ...consts import private
 from ...scan import Dispatcher
 from ...spec.v2_0.objects import PathItem, Operation, Schema, Swagger
 from ...spec.v2_0.parser import PathItemContext
@@ -16,6 +17,9 @@ class PatchObject(object):
 
     class Disp(Dispatcher): pass
 
+    def __init__(self, sep=private.SCOPE_SEPARATOR):
+        self.__sep = sep
+
     @Disp.register([Operation])
     def _operation(self, path, obj, app):
         """
@@ -92,7 +96,7 @@ class PatchObject(object):
         if path.startswith('#/definitions'):
             last_token = jp_split(path)[-1]
             if app.version == '1.2':
-                obj.update_field('name', scope_split(last_token)[-1])
+                obj.update_field('name', scope_split(last_token, sep=self.__sep)[-1])
             else:
                 obj.update_field('name', last_token)
 
-- 
2.43.0


From 9e2633864261facecfd05423c1bdaa772a3abf3e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 05:49:24 +0000
Subject: [PATCH 59/62] fix: what follows a date or time is not ignored

The time zone was lost after a fraction of more than six digits, the time
of '2007-04-05 14:30' was dropped, and any text that begins with a date was
accepted.
---
 pyswagger/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 81698cf..c002f72 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -129,10 +129,10 @@ class FixedTZ(datetime.tzinfo):
 _iso8601_fmt = re.compile(''.join([
     '(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})', # YYYY-MM-DD
     'T', # T
-    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6}))?)?', # hh:mm:ss.ms
-    '(?P<tz>Z|[+-]\d{2}:\d{2})?' # Z or +/-hh:mm
+    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6})\d*)?)?', # hh:mm:ss.ms, further digits are dropped
+    '(?P<tz>Z|[+-]\d{2}:\d{2})?$' # Z or +/-hh:mm
 ]))
-_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})') # YYYY-MM-DD
+_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$') # YYYY-MM-DD
 
 def from_iso8601(s):
     """ convert iso8601 string to datetime object.
-- 
2.43.0


From 33a572cabee54f121cecea826fdff30b0b757bf0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 05:49:24 +0000
Subject: [PATCH 60/62] fix: documents are recognised by their whole extension

A resource list at http://host/petjson was taken for a file in the root
folder, and /x/a.geojson for a document.
---
 pyswagger/getter.py |  2 +-
 pyswagger/utils.py  | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index faf6015..9b02ffc 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -115,7 +115,7 @@ class LocalGetter(Getter):
             #   extension is either 'json' or 'yaml'.
             _, ext = os.path.splitext(path)
             for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML, private.FILE_EXT_YML]:
-                if ext.endswith(e):
+                if ext == '.' + e:
                     self.base_path = os.path.dirname(path)
                     self.urls = [path]
                     break
diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index c002f72..1eed092 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -333,13 +333,12 @@ def url_dirname(url):
     """ Return the folder containing the '.json' file
     """
     p = six.moves.urllib.parse.urlparse(url)
-    for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML, private.FILE_EXT_YML]:
-        if p.path.endswith(e):
-            return six.moves.urllib.parse.urlunparse(
-                p[:2]+
-                (os.path.dirname(p.path),)+
-                p[3:]
-            )
+    if os.path.splitext(p.path)[1] in private.VALID_FILE_EXT:
+        return six.moves.urllib.parse.urlunparse(
+            p[:2]+
+            (os.path.dirname(p.path),)+
+            p[3:]
+        )
     return url
 
 def url_join(url, path):
-- 
2.43.0


From cd6b27c5cbc62a0432c0c15b216279c01ecafaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:54 +0000
Subject: [PATCH 61/62] fix: count the elements of arrays whose items are
 declared by another member of allOf

---
 pyswagger/primitives/_array.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 0b66c4c..b5be97f 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -43,15 +43,17 @@ class Array(list):
                 # assume the type is hashable
                 val = set(val)
 
-        if obj.items and len(val):
+        # elements are converted once, by the first 'items' found in a schema and its 'allOf'
+        if obj.items and len(val) and not len(self):
             self.extend([ctx['factory'].produce(obj.items, v, {'read': ctx['read']}) for v in val])
             val = []
 
-        # init array as list
-        if obj.minItems and len(self) < obj.minItems:
-            raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, len(self)))
-        if obj.maxItems is not None and len(self) > obj.maxItems:
-            raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, len(self)))
+        # init array as list, elements not converted yet are counted, too
+        count = len(self) or len(val)
+        if obj.minItems and count < obj.minItems:
+            raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, count))
+        if obj.maxItems is not None and count > obj.maxItems:
+            raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, count))
 
         return val
 
-- 
2.43.0


From 30f26428178b9fe23bdbf4c6bb7d97964edfee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:54 +0000
Subject: [PATCH 62/62] fix: obey the constraints of a schema whose type is
 given by a member of allOf

---
 pyswagger/primitives/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index 68f3ea4..f88ae8f 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -235,7 +235,9 @@ class Primitive(object):
         # handle allOf for Schema Object
         allOf = getattr(obj, 'allOf', None)
         if allOf:
-            not_applied = []
+            # the type of this object might be given by one of its members,
+            # its own constraints are applied when the type is known
+            not_applied = [] if ret is not None else [obj]
             for a in _members(obj):
                 if ret is not None:
                     val = _apply(a, ret, val, ctx)
-- 
2.43.0

