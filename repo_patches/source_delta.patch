From 5268012943d991f414b9ae6b6e1eb3587169db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 01/50] fix: parse_range_header raised on malformed values
 instead of returning None

---
 verktyg/http/cache_control.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index b94f52c..c553c3e 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -134,21 +134,28 @@ def parse_range_header(value, make_inclusive=True):
         if item.startswith('-'):
             if last_end < 0:
                 return None
-            begin = int(item)
+            try:
+                begin = int(item)
+            except ValueError:
+                return None
             end = None
             last_end = -1
         elif '-' in item:
             begin, end = item.split('-', 1)
-            begin = int(begin)
+            try:
+                begin = int(begin)
+                end = int(end) + 1 if end else None
+            except ValueError:
+                return None
             if begin < last_end or last_end < 0:
                 return None
-            if end:
-                end = int(end) + 1
+            if end is None:
+                # an open ended range has to be the last one
+                last_end = -1
+            else:
                 if begin >= end:
                     return None
-            else:
-                end = None
-            last_end = end
+                last_end = end
         ranges.append((begin, end))
 
     return Range(units, ranges)
-- 
2.43.0


From 3dd7ed1411b1d6161917cff82d20e7d86da3592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 02/50] fix: parse_content_range_header raised for lengths made
 of non-decimal digits

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index c553c3e..c3d9de4 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -259,7 +259,7 @@ def parse_content_range_header(value, on_update=None):
     rng, length = rangedef.split('/', 1)
     if length == '*':
         length = None
-    elif length.isdigit():
+    elif length.isdecimal():
         length = int(length)
     else:
         return None
-- 
2.43.0


From b3340ea328535dce77ce49152280d8c1c4e3a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:11 +0000
Subject: [PATCH 03/50] fix: Headers accepted values with newlines when built
 from a list

---
 verktyg/http/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c83f722..37fc141 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -152,6 +152,8 @@ class Headers(object):
         self._list = []
         if defaults is not None:
             if isinstance(defaults, (list, Headers)):
+                for _, value in defaults:
+                    self._validate_value(unicodify_header_value(value))
                 self._list.extend(defaults)
             else:
                 self.extend(defaults)
-- 
2.43.0


From 0cdfff357287b95b010bf1c37db205a698ef231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:28 +0000
Subject: [PATCH 04/50] fix: LimitedStream read past its limit for negative
 sizes

---
 verktyg/wsgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4b15444..79ac959 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -869,7 +869,7 @@ class LimitedStream(object):
         """
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None or size == -1:  # -1 is for consistence with file
+        if size is None or size < 0:  # -1 is for consistence with file
             size = self.limit
         to_read = min(self.limit - self._pos, size)
         try:
@@ -885,7 +885,7 @@ class LimitedStream(object):
         """Reads one line from the stream."""
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None:
+        if size is None or size < 0:
             size = self.limit - self._pos
         else:
             size = min(size, self.limit - self._pos)
-- 
2.43.0


From a4dd098fbffbd2ac4ed606250525794f05eec3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:06 +0000
Subject: [PATCH 05/50] fix: host_is_trusted raised TypeError for subdomain
 entries

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 79ac959..62a8382 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -134,7 +134,7 @@ def host_is_trusted(hostname, trusted_list):
         ref = _normalize(ref)
         if ref == hostname:
             return True
-        if suffix_match and hostname.endswith('.' + ref):
+        if suffix_match and hostname.endswith(b'.' + ref):
             return True
     return False
 
-- 
2.43.0


From 2f8331aa77cd18e1fb1eedc80358da6a983cdc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:31 +0000
Subject: [PATCH 06/50] fix: order of Accept matches was not consistent when
 specificity and quality disagree

---
 verktyg/accept/_base.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index eaca9ff..a659c1c 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -167,13 +167,10 @@ class Acceptability(object):
         if other is None:
             return True
 
-        if self._match_quality > other._match_quality:
-            return True
-
-        if self.quality > other.quality:
-            return True
+        if self._match_quality != other._match_quality:
+            return self._match_quality > other._match_quality
 
-        return False
+        return self.quality > other.quality
 
 
 # TODO better name
-- 
2.43.0


From c9bc3b49f8e57f8979be6136bc476aeefa343b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:31 +0000
Subject: [PATCH 07/50] fix: order of representations was not consistent when
 dimensions disagree

---
 verktyg/accept/__init__.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 2d93257..69019c4 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -60,22 +60,19 @@ class Acceptability(object):
                 return False
             return True
 
-        if _gt(
+        for ours, theirs in (
+            (
                 self._content_type_acceptability,
-                other._content_type_acceptability):
-            return True
-        if _gt(
-                self._language_acceptability,
-                other._language_acceptability):
-            return True
-        if _gt(
-                self._charset_acceptability,
-                other._charset_acceptability):
-            return True
-        if _gt(
-                self._qs,
-                other._qs):
-            return True
+                other._content_type_acceptability,
+            ),
+            (self._language_acceptability, other._language_acceptability),
+            (self._charset_acceptability, other._charset_acceptability),
+            (self._qs, other._qs),
+        ):
+            if _gt(ours, theirs):
+                return True
+            if _gt(theirs, ours):
+                return False
         return False
 
 
-- 
2.43.0


From bb217c5abda794a7276b7c016f802edb120a54f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:32 +0000
Subject: [PATCH 08/50] fix: language and charset of a representation were not
 matched against their headers

---
 verktyg/accept/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 69019c4..d0e8e0d 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -169,13 +169,13 @@ class Representation(object):
         )
 
         language_acceptability = (
-            self._content_type.acceptability(accept)
+            self._language.acceptability(accept_language)
             if self._language is not None else
             None
         )
 
         charset_acceptability = (
-            self._charset.acceptability
+            self._charset.acceptability(accept_charset)
             if self._charset is not None else
             None
         )
-- 
2.43.0


From c300157f16bacdd46083a2d15cf8c2720f37cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:30 +0000
Subject: [PATCH 09/50] fix: nesting an exception dispatcher raised
 AttributeError

---
 verktyg/exception_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/exception_dispatch.py b/verktyg/exception_dispatch.py
index 6634a21..1e731d2 100644
--- a/verktyg/exception_dispatch.py
+++ b/verktyg/exception_dispatch.py
@@ -77,7 +77,8 @@ class ExceptionDispatcher(ExceptionHandlerFactory):
                 self._handlers[handler.exception_class].append(handler)
 
     def get_exception_handlers(self):
-        return iter(self._handlers)
+        for handlers in self._handlers.values():
+            yield from handlers
 
     def lookup(
         self, exception_class,
-- 
2.43.0


From d550cffcfb4f5e3f54c30be76445bdc6718178e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 10/50] fix: keep HeaderSet's list and lookup set consistent

---
 verktyg/http/basic.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 37fc141..79fdb1b 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -972,8 +972,10 @@ class HeaderSet(object):
     """
 
     def __init__(self, headers=None, on_update=None):
-        self._headers = list(headers or ())
-        self._set = set([x.lower() for x in self._headers])
+        self._headers = []
+        self._set = set()
+        self.on_update = None
+        self.update(headers or ())
         self.on_update = on_update
 
     def add(self, header):
@@ -991,8 +993,8 @@ class HeaderSet(object):
         if key not in self._set:
             raise KeyError(header)
         self._set.remove(key)
-        for idx, key in enumerate(self._headers):
-            if key.lower() == header:
+        for idx, item in enumerate(self._headers):
+            if item.lower() == key:
                 del self._headers[idx]
                 break
         if self.on_update is not None:
@@ -1085,7 +1087,13 @@ class HeaderSet(object):
     def __setitem__(self, idx, value):
         old = self._headers[idx]
         self._set.remove(old.lower())
-        self._headers[idx] = value
+        if value.lower() in self._set:
+            # already in the set, at another position
+            other = self.find(value)
+            self._headers[idx] = value
+            del self._headers[other]
+        else:
+            self._headers[idx] = value
         self._set.add(value.lower())
         if self.on_update is not None:
             self.on_update(self)
-- 
2.43.0


From 19e8642893ec416d543453183cd7d6e78da771af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:26 +0000
Subject: [PATCH 11/50] fix: CombinedMultiDict.to_dict(flat=False) drops values
 of later dicts

---
 verktyg/datastructures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4c55381..8121338 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -921,9 +921,11 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         :return:
             A :class:`dict`
         """
+        if not flat:
+            return dict(self.lists())
         rv = {}
         for d in reversed(self.dicts):
-            rv.update(d.to_dict(flat))
+            rv.update(d.to_dict())
         return rv
 
     def __len__(self):
-- 
2.43.0


From 73ed11189887c63604e50d8ca1e3093f1a77d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:21 +0000
Subject: [PATCH 12/50] fix: OrderedMultiDict kept cleared items and lost the
 order in deep copies

---
 verktyg/datastructures.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 8121338..ed973c6 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -678,7 +678,8 @@ class OrderedMultiDict(MultiDict):
         return True
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        equal = self.__eq__(other)
+        return equal if equal is NotImplemented else not equal
 
     def __reduce_ex__(self, protocol):
         return type(self), (list(self.items(multi=True)),)
@@ -687,7 +688,7 @@ class OrderedMultiDict(MultiDict):
         return list(self.items(multi=True))
 
     def __setstate__(self, values):
-        dict.clear(self)
+        OrderedMultiDict.clear(self)
         for key, value in values:
             self.add(key, value)
 
@@ -703,6 +704,13 @@ class OrderedMultiDict(MultiDict):
     def __delitem__(self, key):
         self.pop(key)
 
+    def clear(self):
+        dict.clear(self)
+        self._first_bucket = self._last_bucket = None
+
+    def deepcopy(self, memo=None):
+        return self.__class__(deepcopy(list(self.items(multi=True)), memo))
+
     def keys(self):
         return (key for key, value in self.items())
 
-- 
2.43.0


From ddf3a99016168ca622f55b75b083177ad467cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 13/50] fix: immutable containers could be changed by clear()
 and |=

---
 verktyg/datastructures.py | 6 ++++++
 verktyg/http/basic.py     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index ed973c6..7bfc80b 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -80,6 +80,9 @@ class ImmutableListMixin(object):
         is_immutable(self)
     remove = append
 
+    def clear(self):
+        is_immutable(self)
+
     def extend(self, iterable):
         is_immutable(self)
 
@@ -152,6 +155,9 @@ class ImmutableDictMixin(object):
     def __delitem__(self, key):
         is_immutable(self)
 
+    def __ior__(self, other):
+        is_immutable(self)
+
     def clear(self):
         is_immutable(self)
 
diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 79fdb1b..59fc7cf 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -517,6 +517,9 @@ class ImmutableHeadersMixin(object):
         is_immutable(self)
     remove = add_header = add
 
+    def clear(self):
+        is_immutable(self)
+
     def extend(self, iterable):
         is_immutable(self)
 
-- 
2.43.0


From 170af4b3ae57597756fbb4d70a3aee9990a82d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:14 +0000
Subject: [PATCH 14/50] fix: RouteTemplate dropped redirect_to, alias and host
 of its routes

---
 verktyg/routing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 2fe0b86..dd03c67 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -404,7 +404,10 @@ class RouteTemplateFactory(RouteFactory):
                     subdomain,
                     route.build_only,
                     new_endpoint,
-                    route.strict_slashes
+                    route.strict_slashes,
+                    route.redirect_to,
+                    route.alias,
+                    route.host,
                 )
 
 
-- 
2.43.0


From 86e3514875435ac104b77fdbd9df7ab8a71bf8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:31 +0000
Subject: [PATCH 15/50] fix: routes matched paths followed by a line break

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index dd03c67..8f441a7 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -630,7 +630,7 @@ class Route(RouteFactory):
 
         if self.build_only:
             return
-        regex = r'^%s%s$' % (
+        regex = r'^%s%s\Z' % (
             u''.join(regex_parts),
             '(?<!/)(?P<__suffix__>/?)'
             if (not self.is_leaf or not self.strict_slashes)
-- 
2.43.0


From 803015d6da6cbe1dd02bd8db6a9f534f35de54f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:32 +0000
Subject: [PATCH 16/50] fix: query arguments of redirects were not encoded in
 the charset of the map

---
 verktyg/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 8f441a7..e221c33 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1450,7 +1450,9 @@ class MapAdapter(object):
 
     def encode_query_args(self, query_args):
         if not isinstance(query_args, str):
-            query_args = urlencode(query_args, self.router.charset)
+            query_args = urlencode(
+                query_args, doseq=True, encoding=self.router.charset
+            )
         return query_args
 
     def make_redirect_url(self, path_info, query_args=None, domain_part=None):
-- 
2.43.0


From 0d5549de64ac5313fffd16cc13742196b9f725f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:32 +0000
Subject: [PATCH 17/50] fix: building a URL from a MultiDict raised
 AttributeError

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index e221c33..15c1cf3 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1536,7 +1536,7 @@ class MapAdapter(object):
         self.router.update()
         if values:
             if isinstance(values, MultiDict):
-                valueiter = values.iteritems(multi=True)
+                valueiter = values.items(multi=True)
             else:
                 valueiter = values.items()
             values = dict((k, v) for k, v in valueiter if v is not None)
-- 
2.43.0


From 3b0c0b5a96d7c202d6d2592f86323d64d499c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 18/50] fix: JSON views failed in applications without a debug
 attribute

---
 verktyg/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/views.py b/verktyg/views.py
index 24e52cd..b541e27 100644
--- a/verktyg/views.py
+++ b/verktyg/views.py
@@ -89,7 +89,7 @@ class JsonView(View):
             # no content
             return Response(status=204)
 
-        if env.debug:
+        if getattr(env, 'debug', False):
             json_response = json.dumps(res, indent=4)
         else:
             json_response = json.dumps(res, separators=(',', ':'))
-- 
2.43.0


From 2076d998239686e6605fa2ac1c5ecd03744f6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 19/50] fix: parse_etags lost empty tags and hung on a trailing
 line break

---
 verktyg/http/cache_control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index c3d9de4..1e189ee 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -16,7 +16,7 @@ from verktyg.http.basic import (
 )
 
 
-_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|$)')
+_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|\Z)')
 
 
 class IfRange(object):
@@ -572,7 +572,7 @@ def parse_etags(value):
         is_weak, quoted, raw = match.groups()
         if raw == '*':
             return ETags(star_tag=True)
-        elif quoted:
+        elif quoted is not None:
             raw = quoted
         if is_weak:
             weak.append(raw)
-- 
2.43.0


From 04913fc654fb76417bafda8eb0d4e81a50a3f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:31 +0000
Subject: [PATCH 20/50] fix: Content-Length of bodies made of text counted
 characters instead of bytes

---
 verktyg/responses.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index e6e434b..a144236 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -344,7 +344,7 @@ class BaseResponse(object):
             self._ensure_sequence()
         except RuntimeError:
             return None
-        return sum(len(x) for x in self.response)
+        return sum(len(x) for x in self.iter_encoded())
 
     def _ensure_sequence(self, mutable=False):
         """This method can be called by methods that need a sequence.  If
@@ -560,14 +560,13 @@ class BaseResponse(object):
 
         # if we can determine the content length automatically, we
         # should try to do that.  But only if this does not involve
-        # flattening the iterator or encoding of unicode strings in
-        # the response.  We however should not do that if we have a 304
-        # response.
+        # flattening the iterator.  We however should not do that if we
+        # have a 304 response.
         if (
             self.automatically_set_content_length and
             self.is_sequence and content_length is None and status != 304
         ):
-            content_length = sum(len(x) for x in self.response)
+            content_length = sum(len(x) for x in self.iter_encoded())
             headers['Content-Length'] = str(content_length)
 
         return headers
-- 
2.43.0


From 7df0b489eba34d48cf5d5ed807f689a5ec913741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 21/50] fix: run_wsgi_app lost what buffered applications write
 and errors with another traceback

---
 verktyg/test.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f6d2fd1..28097e8 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -915,7 +915,7 @@ def run_wsgi_app(app, environ, buffered=False):
         if exc_info is not None:
             exc_type, exc_value, exc_traceback = exc_info
             if exc_value.__traceback__ is not exc_traceback:
-                raise exc_value.with_traceback()
+                raise exc_value.with_traceback(exc_traceback)
             raise exc_value
         response[:] = [status, headers]
         return buffer.append
@@ -928,10 +928,12 @@ def run_wsgi_app(app, environ, buffered=False):
     # application iterator into a regular list
     if buffered:
         try:
-            app_iter = list(app_iter)
+            for item in app_iter:
+                buffer.append(item)
         finally:
             if close_func is not None:
                 close_func()
+        app_iter = buffer
 
     # otherwise we iterate the application iter until we have a response, chain
     # the already received data with the already collected data and wrap it in
-- 
2.43.0


From 291080ea62da8891a3388c70efe304d2113fef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:02 +0000
Subject: [PATCH 22/50] fix: parse_cookie ignored errors and failed on cookies
 not in the charset

---
 verktyg/http/cookies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index 95bab83..be3dde9 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -188,8 +188,8 @@ def parse_cookie(header, charset='utf-8', errors='replace', cls=None):
 
     def _parse_pairs():
         for key, val in _cookie_parse_impl(header):
-            key = key.decode(charset)
-            val = val.decode(charset)
+            key = key.decode(charset, errors)
+            val = val.decode(charset, errors)
             yield key, val
 
     return cls(_parse_pairs())
-- 
2.43.0


From 825c883462e4a3418fe919517932cd4f4042bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:25 +0000
Subject: [PATCH 23/50] fix: parse_cookie lost cookies that follow something
 that is not one

---
 verktyg/http/cookies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index be3dde9..aede082 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -39,7 +39,7 @@ for _i in chain(range(32), range(127, 256)):
 _octal_re = re.compile(b'\\\\[0-3][0-7][0-7]')
 _quote_re = re.compile(b'[\\\\].')
 _cookie_re = re.compile(b"""(?x)
-    (?P<key>[^=]+)
+    (?P<key>[^=;]+)
     \s*=\s*
     (?P<val>
         "(?:[^\\\\"]|\\\\.)*" |
-- 
2.43.0


From 35e66ecca2657fef162bf5f31b1919c0af34526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:05 +0000
Subject: [PATCH 24/50] fix: list and dict headers were unquoted twice

---
 verktyg/http/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 59fc7cf..7ebedc2 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -617,7 +617,7 @@ def parse_list_header(value):
     result = []
     for item in _parse_list_header(value):
         if item[:1] == item[-1:] == '"':
-            item = unquote_header_value(item[1:-1])
+            item = item[1:-1]
         result.append(item)
     return result
 
@@ -658,7 +658,7 @@ def parse_dict_header(value, cls=dict):
             continue
         name, value = item.split('=', 1)
         if value[:1] == value[-1:] == '"':
-            value = unquote_header_value(value[1:-1])
+            value = value[1:-1]
         result[name] = value
     return result
 
-- 
2.43.0


From ee3717e01860bdcbef46f89c11c061582d7fcfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:08 +0000
Subject: [PATCH 25/50] fix: empty header values were not quoted and got lost
 in lists

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 7ebedc2..33aebe7 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -78,7 +78,7 @@ def quote_header_value(value, extra_chars='', allow_token=True):
     value = str(value)
     if allow_token:
         token_chars = _token_chars | set(extra_chars)
-        if set(value).issubset(token_chars):
+        if value and set(value).issubset(token_chars):
             return value
     return '"%s"' % value.replace('\\', '\\\\').replace('"', '\\"')
 
-- 
2.43.0


From 21954149875b74812c73c1de6ab8d87f60a27976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 26/50] fix: parse_options_header raised StopIteration for
 values without a name

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 33aebe7..63d70a1 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -691,7 +691,7 @@ def parse_options_header(value):
         return '', {}
 
     parts = _tokenize(';' + value)
-    name = next(parts)[0]
+    name = next(parts, ('', None))[0]
     extra = dict(parts)
     return name, extra
 
-- 
2.43.0


From a6161c6eba8c9ffde68ad05b6fafd84bee73375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:41 +0000
Subject: [PATCH 27/50] fix: make_line_iter failed on byte streams

---
 verktyg/wsgi.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 62a8382..de6ba32 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -700,6 +700,16 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
     """
     _iter = _make_chunk_iter(stream, limit, buffer_size)
 
+    first_item = next(_iter, '')
+    if not first_item:
+        return
+
+    _iter = chain((first_item,), _iter)
+    if isinstance(first_item, str):
+        empty, cr, lf = '', '\r', '\n'
+    else:
+        empty, cr, lf = b'', b'\r', b'\n'
+
     def _iter_basic_lines():
         buffer = []
         while 1:
@@ -709,20 +719,20 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
             new_buf = []
             for item in chain(buffer, new_data.splitlines(True)):
                 new_buf.append(item)
-                if item and item[-1:] in '\r\n':
-                    yield ''.join(new_buf)
+                if item and item[-1:] in cr + lf:
+                    yield empty.join(new_buf)
                     new_buf = []
             buffer = new_buf
         if buffer:
-            yield ''.join(buffer)
+            yield empty.join(buffer)
 
     # This hackery is necessary to merge 'foo\r' and '\n' into one item
     # of 'foo\r\n' if we were unlucky and we hit a chunk boundary.
-    previous = ''
+    previous = empty
     for item in _iter_basic_lines():
-        if item == '\n' and previous[-1:] == '\r':
+        if item == lf and previous[-1:] == cr:
             previous += item
-            item = ''
+            item = empty
         if previous:
             yield previous
         previous = item
-- 
2.43.0


From f2e6869546015fbb7a6e4ff8b8b0bbe633b3efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 28/50] fix: make_chunk_iter missed separators cut by the end
 of a chunk

---
 verktyg/wsgi.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index de6ba32..2aa94bf 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -771,11 +771,12 @@ def make_chunk_iter(stream, separator, limit=None, buffer_size=10 * 1024):
         _join = b''.join
 
     buffer = []
+    tail = first_item[:0]
     while 1:
         new_data = next(_iter, '')
         if not new_data:
             break
-        chunks = _split(new_data)
+        chunks = _split(tail + new_data)
         new_buf = []
         for item in chain(buffer, chunks):
             if item == separator:
@@ -784,8 +785,14 @@ def make_chunk_iter(stream, separator, limit=None, buffer_size=10 * 1024):
             else:
                 new_buf.append(item)
         buffer = new_buf
+        # The end of the data could be the start of a separator.  It is held
+        # back and looked at again together with what follows.
+        last = buffer.pop()
+        split_at = max(len(last) - len(separator) + 1, 0)
+        buffer.append(last[:split_at])
+        tail = last[split_at:]
     if buffer:
-        yield _join(buffer)
+        yield _join(buffer + [tail])
 
 
 class LimitedStream(object):
-- 
2.43.0


From 2e8715e6cc865ac4422a3ddab9cbd8ac57e5bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 29/50] fix: SharedDataMiddleware failed if given a list of
 disallowed files

---
 verktyg/wsgi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 2aa94bf..4bf300e 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -399,7 +399,11 @@ class SharedDataMiddleware(object):
             self.exports[key] = loader
         if disallow is not None:
             from fnmatch import fnmatch
-            self.is_allowed = lambda x: not fnmatch(x, disallow)
+            if isinstance(disallow, str):
+                disallow = [disallow]
+            self.is_allowed = lambda x: not any(
+                fnmatch(x, rule) for rule in disallow
+            )
         self.fallback_mimetype = fallback_mimetype
 
     def is_allowed(self, filename):
-- 
2.43.0


From 497a1b625889d132f67766651b192c921c616cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 30/50] fix: setting an absent cache directive to None raised
 KeyError

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 1e189ee..c14ac7a 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -339,7 +339,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
                 self.pop(key, None)
         else:
             if value is None:
-                self.pop(key)
+                self.pop(key, None)
             elif value is True:
                 self[key] = None
             else:
-- 
2.43.0


From 74a2d3235b89d5dabd33f2b74fbf5caa90fdcd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 31/50] fix: the no_transform cache directive could not be read

---
 verktyg/http/cache_control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index c14ac7a..3399811 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -308,7 +308,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
     no_cache = cache_property('no-cache', '*', None)
     no_store = cache_property('no-store', None, bool)
     max_age = cache_property('max-age', -1, int)
-    no_transform = cache_property('no-transform', None, None)
+    no_transform = cache_property('no-transform', None, bool)
 
     def __init__(self, values=(), on_update=None):
         dict.__init__(self, values or ())
@@ -378,7 +378,7 @@ class RequestCacheControl(datastructures.ImmutableDictMixin, _CacheControl):
 
     max_stale = cache_property('max-stale', '*', int)
     min_fresh = cache_property('min-fresh', '*', int)
-    no_transform = cache_property('no-transform', None, None)
+    no_transform = cache_property('no-transform', None, bool)
     only_if_cached = cache_property('only-if-cached', None, bool)
 
 
-- 
2.43.0


From 1b82627b766edfde21810545d7bdb4bd0060dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 32/50] fix: creating a ContentRange was reported as an update

---
 verktyg/http/cache_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 3399811..b171882 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -168,8 +168,9 @@ class ContentRange(object):
     def __init__(self, units, start, stop, length=None, on_update=None):
         if not is_byte_range_valid(start, stop, length):
             raise ValueError('Bad range provided')
-        self.on_update = on_update
+        self.on_update = None
         self.set(start, stop, length, units)
+        self.on_update = on_update
 
     def _callback_property(name):
         def fget(self):
-- 
2.43.0


From a32b8e85f15f615b5e9ec12c322213c7942a515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 33/50] fix: in-place union of an update dict was not reported

---
 verktyg/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 7bfc80b..3065952 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -229,6 +229,7 @@ class UpdateDictMixin(object):
     clear = calls_update('clear')
     popitem = calls_update('popitem')
     update = calls_update('update')
+    __ior__ = calls_update('__ior__')
     del calls_update
 
 
-- 
2.43.0


From faccc2550f16bf14089479f2c1eb760e8142d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 34/50] fix: uri_to_iri unquoted characters that change the
 structure of the uri

---
 verktyg/urls.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index 983173b..32cbf78 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -141,14 +141,14 @@ def uri_to_iri(uri, errors='replace'):
     if uri.username or uri.password:
         if uri.username:
             username = _safe_urlunquote(
-                uri.username, errors='strict', unsafe='/:%'
+                uri.username, errors='strict', unsafe='/:%?#[]@\t\r\n'
             )
         else:
             username = ''
 
         if uri.password:
             password = _safe_urlunquote(
-                uri.password, errors='strict', unsafe='/:%'
+                uri.password, errors='strict', unsafe='/:%?#[]@\t\r\n'
             )
             auth = '%s:%s' % (username, password)
         else:
@@ -157,13 +157,13 @@ def uri_to_iri(uri, errors='replace'):
         netloc = '%s@%s' % (auth, netloc)
 
     path = _safe_urlunquote(
-        uri.path, errors=errors, unsafe='%/;?'
+        uri.path, errors=errors, unsafe='%/;?#\t\r\n'
     )
     query = _safe_urlunquote(
-        uri.query, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.query, errors=errors, unsafe='%;/?:@&=+,$#\t\r\n'
     )
     fragment = _safe_urlunquote(
-        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#\t\r\n'
     )
     return urlunsplit(
         (uri.scheme, netloc, path, query, fragment)
-- 
2.43.0


From 5c8f85648425e420f7cb3a6f0056ef953fc6818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 35/50] fix: Request.is_secure was always None

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 6965d3b..e54c125 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -435,7 +435,7 @@ class BaseRequest(object):
     def is_secure(self):
         """`True` if the request is made over an encrypted connection
         """
-        self.environ['wsgi.url_scheme'] == 'https',
+        return self.environ['wsgi.url_scheme'] == 'https'
 
     @property
     def is_multithread(self):
-- 
2.43.0


From 23d36dbd13bfa29c9f2afbce164a993f86da2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 36/50] fix: max_forwards failed if the header is missing

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index e54c125..3b2a841 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -616,7 +616,7 @@ class CommonRequestDescriptorsMixin(object):
         """
         try:
             return int(self.environ.get('HTTP_MAX_FORWARDS'))
-        except ValueError:
+        except (TypeError, ValueError):
             return None
 
     def _parse_content_type(self):
-- 
2.43.0


From 603a416578cf4eb37c2eb6e1894431a88ac48cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 37/50] fix: append_slash_redirect did not quote the path

---
 verktyg/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index ad20122..56cfd2c 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -228,7 +228,10 @@ def append_slash_redirect(environ, code=301):
     :param code:
         The status code for the redirect.
     """
-    new_path = environ['PATH_INFO'].strip('/') + '/'
+    from urllib.parse import quote
+    from verktyg.wsgi import get_path_info
+
+    new_path = quote(get_path_info(environ).strip('/')) + '/'
     query_string = environ.get('QUERY_STRING')
     if query_string:
         new_path += '?' + query_string
-- 
2.43.0


From f3b06ef4a019685162fa6b4da4346fa1a2b4a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 38/50] fix: iterating over a FileStorage never ended

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 63d70a1..852bfdf 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -951,7 +951,7 @@ class FileStorage(object):
         return getattr(self.stream, name)
 
     def __iter__(self):
-        return iter(self.readline, '')
+        return iter(self.stream)
 
     def __repr__(self):
         return '<%s: %r (%r)>' % (
-- 
2.43.0


From 894501615bd73ba2e31acb4c0e46714f60b9ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 39/50] fix: EnvironBuilder sent only one value of each
 argument and form field

---
 verktyg/test.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 28097e8..6f38f59 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -24,7 +24,9 @@ from urllib.request import Request
 from http.cookiejar import CookieJar
 
 from verktyg.urls import url_fix, iri_to_uri
-from verktyg.datastructures import MultiDict, CombinedMultiDict
+from verktyg.datastructures import (
+    MultiDict, CombinedMultiDict, iter_multi_items,
+)
 from verktyg.http import Headers, FileStorage, dump_cookie
 from verktyg.wsgi import (
     get_host, get_current_url, ClosingIterator, wsgi_encoding_dance,
@@ -485,7 +487,9 @@ class EnvironBuilder(object):
     def _get_query_string(self):
         if self._query_string is None:
             if self._args is not None:
-                return urlencode(self._args, encoding=self.charset)
+                return urlencode(
+                    list(iter_multi_items(self._args)), encoding=self.charset
+                )
             return ''
         return self._query_string
 
@@ -571,7 +575,9 @@ class EnvironBuilder(object):
             )
             content_type += '; boundary="%s"' % boundary
         elif content_type == 'application/x-www-form-urlencoded':
-            values = urlencode(self.form, encoding=self.charset)
+            values = urlencode(
+                list(iter_multi_items(self.form)), encoding=self.charset
+            )
             values = values.encode('ascii')
             content_length = len(values)
             input_stream = BytesIO(values)
-- 
2.43.0


From c81016827d6de40d16c34be7b62a8f07f3402593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 40/50] fix: fields could not be encoded as multipart

---
 verktyg/test.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 6f38f59..b4cd13d 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -100,12 +100,11 @@ def stream_encode_multipart(
                         break
                     write_binary(chunk)
             else:
-                if isinstance(value, str):
-                    write(value)
-                else:
-                    write_binary(value)
                 write('\r\n\r\n')
-                write_binary(value)
+                if isinstance(value, bytes):
+                    write_binary(value)
+                else:
+                    write(str(value))
             write('\r\n')
     write('--%s--\r\n' % boundary)
 
-- 
2.43.0


From 5916bc256063c0feac17a7cacece5423c31e8c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 41/50] fix: EnvironBuilder closed only one file of each field

---
 verktyg/test.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index b4cd13d..90a9944 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -545,10 +545,10 @@ class EnvironBuilder(object):
         if self.closed:
             return
         try:
-            files = self.files.values()
+            files = iter_multi_items(self.files)
         except AttributeError:
             files = ()
-        for f in files:
+        for _, f in files:
             try:
                 f.close()
             except Exception:
-- 
2.43.0


From 6682f2a39b913c9965b4fe2963e2d76c98330e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 42/50] fix: EnvironBuilder sent only the last of several
 headers of one name

---
 verktyg/test.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 90a9944..3e38d89 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -613,8 +613,13 @@ class EnvironBuilder(object):
             'wsgi.multiprocess': self.multiprocess,
             'wsgi.run_once': self.run_once
         })
+        headers = {}
         for key, value in self.headers.to_wsgi_list():
-            result['HTTP_%s' % key.upper().replace('-', '_')] = value
+            key = 'HTTP_%s' % key.upper().replace('-', '_')
+            if key in headers:
+                value = headers[key] + ', ' + value
+            headers[key] = value
+        result.update(headers)
         if self.environ_overrides:
             result.update(self.environ_overrides)
         return result
-- 
2.43.0


From cd785a3f6f370eaff70f103fdbbda6818815d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 43/50] fix: redirects to subdomains raised AttributeError

---
 verktyg/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 3e38d89..e5bf2f8 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -729,7 +729,9 @@ class Client(object):
         real_server_name = get_host(environ).rsplit(':', 1)[0].split('.')
 
         if self.allow_subdomain_redirects:
-            allowed = cur_server_name.endswith(real_server_name)
+            allowed = (
+                cur_server_name[-len(real_server_name):] == real_server_name
+            )
         else:
             allowed = cur_server_name == real_server_name
 
-- 
2.43.0


From c5c4ec8dbdafa10dcf43c3c7b82423c701d95b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:25 +0000
Subject: [PATCH 44/50] fix: q=nan was accepted as a quality

---
 verktyg/accept/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index a659c1c..4e65029 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -54,7 +54,10 @@ class Range(object):
         self._validate_value(value)
         self.value = value
 
-        self.q = max(min(float(q), 1.0), 0.0)
+        q = float(q)
+        if q != q:
+            raise ValueError("Invalid quality: %r" % q)
+        self.q = max(min(q, 1.0), 0.0)
 
         if params is None:
             params = {}
-- 
2.43.0


From 601054a7afee70fcc8f7f24ebd57ead7df1e16c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:35 +0000
Subject: [PATCH 45/50] fix: keep whole-number converter arguments apart

An unescaped dot made the argument pattern read '1,2' as one number, so that
any(1,2) stood for the single text '1,2'.
---
 verktyg/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 15c1cf3..a88af56 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -122,8 +122,8 @@ _converter_args_re = re.compile(r'''
     ((?P<name>\w+)\s*=\s*)?
     (?P<value>
         True|False|
-        \d+.\d+|
-        \d+.|
+        \d+\.\d+|
+        \d+\.|
         \d+|
         \w+|
         [urUR]?(?P<stringval>"[^"]*?"|'[^']*')
-- 
2.43.0


From 4c5faf628870d2cd718f19e1106241b5e5df0941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:20 +0000
Subject: [PATCH 46/50] fix: end when headers are extended with themselves

---
 verktyg/http/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 852bfdf..c2d6794 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -290,7 +290,8 @@ class Headers(object):
                 else:
                     self.add(key, value)
         else:
-            for key, value in iterable:
+            # the iterable may be the headers themselves
+            for key, value in list(iterable):
                 self.add(key, value)
 
     def __delitem__(self, key, _index_operation=True):
-- 
2.43.0


From 095371cbd18a5ed4f5c85f6bdd6880fcdcfc3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:20 +0000
Subject: [PATCH 47/50] fix: end when a multi dict is updated with itself

---
 verktyg/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 3065952..f8820d7 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -547,7 +547,8 @@ class MultiDict(TypeConversionDict):
 
     def update(self, other_dict):
         """update() extends rather than replaces existing key lists."""
-        for key, value in iter_multi_items(other_dict):
+        # the other dict may be this dict itself
+        for key, value in list(iter_multi_items(other_dict)):
             MultiDict.add(self, key, value)
 
     def pop(self, key, default=_missing):
-- 
2.43.0


From 567d997dcad317a42e891f4bccbed015757be934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:20 +0000
Subject: [PATCH 48/50] fix: end when an ordered multi dict is updated with
 itself

---
 verktyg/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index f8820d7..29c55a6 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -783,7 +783,8 @@ class OrderedMultiDict(MultiDict):
         )
 
     def update(self, mapping):
-        for key, value in iter_multi_items(mapping):
+        # the mapping may be this dict itself
+        for key, value in list(iter_multi_items(mapping)):
             OrderedMultiDict.add(self, key, value)
 
     def poplist(self, key):
-- 
2.43.0


From 08ba6dc7bb19cb8b9e720296c2a956fce1582102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:23 +0000
Subject: [PATCH 49/50] fix: do not hand out the lists of a multi dict through
 listvalues()

---
 verktyg/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 29c55a6..c4a91dd 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -519,7 +519,8 @@ class MultiDict(TypeConversionDict):
         True
         """
 
-        return dict.values(self)
+        for values in dict.values(self):
+            yield list(values)
 
     def copy(self):
         """Return a shallow copy of this object."""
-- 
2.43.0


From f0b86df67a1ec3e753f4d4db0e6a7822d8f6bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:09 +0000
Subject: [PATCH 50/50] fix: do not take part of a bracketed address for a port
 when hosts are compared

---
 verktyg/wsgi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4bf300e..ff1020f 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -120,7 +120,8 @@ def host_is_trusted(hostname, trusted_list):
         trusted_list = [trusted_list]
 
     def _normalize(hostname):
-        if ':' in hostname:
+        # the colons of a bracketed address are not in front of a port
+        if ':' in hostname and not hostname.endswith(']'):
             hostname = hostname.rsplit(':', 1)[0]
         return encode_idna(hostname)
 
-- 
2.43.0

