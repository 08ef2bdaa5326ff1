From f4219f602d5441669389096f518a54888116b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 01/41] fix: TypedList.extend and += lost the items of an
 iterator or generator

The type check consumed the input, so nothing was left to add: attribute
values a context handler returns from a generator vanished silently.
---
 ndg/xacml/utils/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 79be001..55b166b 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -85,6 +85,8 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
+        # Iterate over the input once only: it may be an iterator or generator
+        iter = list(iter)
         for i in iter:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
@@ -98,6 +100,8 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
+        # Iterate over the input once only: it may be an iterator or generator
+        iter = list(iter)
         for i in iter:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
-- 
2.43.0


From 0c75688efeada348ae006161d4e1754fcf436c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 02/41] fix: VettedDict.get ignored its default argument

---
 ndg/xacml/utils/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 55b166b..30d9fa5 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -244,9 +244,9 @@ class VettedDict(MutableMapping):
         if key in self.__map:
             return self.__map[key]
         
-        elif len(arg) > 1:
+        elif len(arg) > 0:
             # Default value set
-            return arg[1]
+            return arg[0]
         else:
             return None
           
-- 
2.43.0


From 1ea6e78865cd7ffbe47712014487cfefb9363190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 03/41] fix: predefined Decision instances were writable

Decision.PERMIT etc. are shared by every response, and their overridden
_setValue was never used by the value property, so assigning to the decision
of one result changed all other results and later decisions.
---
 ndg/xacml/core/context/result.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index c462884..400e696 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -311,7 +311,7 @@ class Decision(object):
     
     def __init__(self, decision=INDETERMINATE_STR):
         self.__value = None
-        self.value = decision
+        Decision._setValue(self, decision)
 
     def __getstate__(self):
         '''Enable pickling
@@ -421,12 +421,15 @@ class PermitDecision(Decision):
         """Initialise set with Permit value"""
         super(PermitDecision, self).__init__(Decision.PERMIT_STR)
         
-    def _setValue(self):  
+    def _setValue(self, value):  
         """Make value read-only
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value - read-only")
+
 
 class DenyDecision(Decision):
     """Deny authorisation Decision"""
@@ -442,6 +445,9 @@ class DenyDecision(Decision):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value - read-only")
+
 
 class IndeterminateDecision(Decision):
     """Indeterminate authorisation Decision"""
@@ -457,6 +463,9 @@ class IndeterminateDecision(Decision):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value - read-only")
+
 
 class NotApplicableDecision(Decision):
     """NotApplicable authorisation Decision"""
@@ -471,6 +480,9 @@ class NotApplicableDecision(Decision):
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
+
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value - read-only")
     
     
 # Add instances of each for convenience
-- 
2.43.0


From e7138ef8f7fe02f83087a3f0a42d4fa342a69a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 04/41] fix: predefined rule Effect instances were writable

Effect.PERMIT and Effect.DENY are shared, and assigning to their value changed
every rule using them.
---
 ndg/xacml/core/rule.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index b1a32f2..9158343 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -44,7 +44,7 @@ class Effect(object):
         @type effect: basestring / ndg.xacml.core.rule.Effect
         """
         self.__value = None
-        self.value = effect
+        Effect._setValue(self, effect)
 
     def __getstate__(self):
         '''Enable pickling
@@ -160,6 +160,9 @@ class PermitEffect(Effect):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Effect._getValue, fset=_setValue, 
+                     doc="Effect value - read-only")
+
 
 class DenyEffect(Effect):
     """Deny authorisation Effect"""
@@ -175,6 +178,9 @@ class DenyEffect(Effect):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Effect._getValue, fset=_setValue, 
+                     doc="Effect value - read-only")
+
 # Add instances of each for convenience
 Effect.PERMIT = PermitEffect()
 Effect.DENY = DenyEffect()
-- 
2.43.0


From 5ab6eeb91fe5adc1d6d08d1e43d0b588da642a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 05/41] fix: default policy finder failed for file objects and
 relative paths

It used the Python 2 file type, a NameError for any source which is not a
string, and left the base path of a relative file name relative, so that
references from it became URLs with a host part.
---
 ndg/xacml/finder/defaultfinder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/finder/defaultfinder.py b/ndg/xacml/finder/defaultfinder.py
index 5494742..a676c03 100644
--- a/ndg/xacml/finder/defaultfinder.py
+++ b/ndg/xacml/finder/defaultfinder.py
@@ -29,9 +29,10 @@ def getDefaultPolicyFinder(source):
     basePath = None
     if isinstance(source, str):
         if os.path.exists(source):
-            basePath = os.path.dirname(source)
-    elif isinstance(source, file):
-        if hasattr(file, 'name') and file.name:
-            basePath = os.path.dirname(file.name)
+            basePath = os.path.dirname(os.path.abspath(source))
+    else:
+        name = getattr(source, 'name', None)
+        if isinstance(name, str) and os.path.exists(name):
+            basePath = os.path.dirname(os.path.abspath(name))
     finder = UrlPolicyFinder(basePath)
     return finder
-- 
2.43.0


From 198f85c8c745df6012b652e96062677ff8c91404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 06/41] fix: response of an XacmlContextError was dropped

evaluateResponse rebound a local name, so the caller got the initial
NotApplicable result in place of the error's Indeterminate one.
---
 ndg/xacml/core/policybase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/core/policybase.py b/ndg/xacml/core/policybase.py
index 5dd5bee..391ff66 100644
--- a/ndg/xacml/core/policybase.py
+++ b/ndg/xacml/core/policybase.py
@@ -117,7 +117,7 @@ class PolicyBase(XacmlCoreBase, metaclass=ABCMeta):
                       e.response.results[0].decision,
                       traceback.format_exc())
 
-            result = e.response.results[0]
+            response = e.response
 
         return response
 
-- 
2.43.0


From 07c2b38dd2151a8f6275c5bc68547db44f377a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 07/41] fix: callModuleObject never took its entry out of
 sys.path again

The saved path was the same list object as the one extended.
---
 ndg/xacml/utils/factory.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ndg/xacml/utils/factory.py b/ndg/xacml/utils/factory.py
index 86572d7..ab1aead 100644
--- a/ndg/xacml/utils/factory.py
+++ b/ndg/xacml/utils/factory.py
@@ -90,8 +90,8 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
     if not objectArgs:
         objectArgs = ()
 
-    # variable to store original state of the system path
-    sysPathBak = None
+    # flag whether the system path has been extended
+    sysPathExtended = False
     try:
         try:
             # Module file path may be None if the new module to be loaded
@@ -102,9 +102,8 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
                                   moduleFilePath)
                           
                 # Temporarily extend system path ready for import
-                sysPathBak = sys.path
-                          
                 sys.path.append(moduleFilePath)
+                sysPathExtended = True
 
             
             # Import module name specified in properties file
@@ -115,8 +114,10 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
             # revert back to original sys path, if necessary
             # NB, python requires the use of a try/finally OR a try/except 
             # block - not both combined
-            if sysPathBak:
-                sys.path = sysPathBak
+            if sysPathExtended:
+                # Take out the last occurrence i.e. the one added above
+                i = len(sys.path) - 1 - sys.path[::-1].index(moduleFilePath)
+                del sys.path[i]
                             
     except Exception as e:
         log.debug('%r module import raised %r type exception: %s', 
-- 
2.43.0


From 7fed8a851e5d80115b965ab7b85d7713b4853b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 08/41] fix: lxml makeEtreeElement passed the namespace map as
 attributes

The arguments were swapped, so elements carried a bogus attribute named after
the prefix and the prefix itself was lost.
---
 ndg/xacml/parsers/etree/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index f39f91b..372d390 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -26,7 +26,8 @@ if Config.use_lxml:
         """Makes an ElementTree element handling namespaces in the way
         appropriate for the ElementTree implementation in use.
         """
-        elem = ElementTree.Element(tag, {ns_prefix: ns_uri}, attrib, **extra)
+        elem = ElementTree.Element(tag, attrib, nsmap={ns_prefix: ns_uri},
+                                   **extra)
         return elem
 
     def serialiseIfElementTree(obj):
-- 
2.43.0


From e525decba87242e8f66e5e4f25f38384779ca4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 09/41] fix: Attribute.fromXML used getchildren, removed from
 ElementTree in Python 3.9

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cf63130..2e6544d 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -416,7 +416,7 @@ class AttributeElementTree(Attribute):
             attribute.issuer = issuer
 
         # Parse sub-elements
-        if len(elem.getchildren()) == 0:
+        if len(elem) == 0:
             raise XMLParseError("XACML context Attribute element has no "
                                 "AttributeValues")
         AttributeValueClass = cls.attributeValueClassFactory(attribute.dataType)
-- 
2.43.0


From 5222af0acacff50c694b57e3d60be17ce66f1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 10/41] fix: Result.toXML failed for a result with a resource
 id

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 2e6544d..b569ef4 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -512,7 +512,7 @@ class ResultElementTree(Result):
         attrib = {}
         # ResourceId attribute is optional.
         if result.resourceId is not None:
-            attrib.append[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
+            attrib[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
 
         elem = etree.makeEtreeElement(tag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-- 
2.43.0


From 4350156e50d6c1480b01d0b52017dbfbf45357e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 11/41] fix: AttributeValue toXML declared its element name as
 a namespace

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index b569ef4..472b1fc 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -384,7 +384,7 @@ class AttributeElementTree(Attribute):
                                  Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME))
             valueElem = etree.makeEtreeElement(valueTag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-                               Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME)
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS)
             valueElem.text = attributeValue.value
             elem.append(valueElem)
             ### TODO AttributeValue is a sequence of xs:any with xs:anyAttribute
-- 
2.43.0


From 6e4b27cfbdf022fb78284d0f98cfb96eead64889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 12/41] fix: Subject.toXML left out the subject category

---
 ndg/xacml/parsers/etree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 472b1fc..2504388 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -141,6 +141,9 @@ class SubjectElementTree(Subject):
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS)
 
+        if subject.subjectCategory is not None:
+            elem.set(cls.SUBJECT_CATEGORY_ATTRIB_NAME, subject.subjectCategory)
+
         for attribute in subject.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
             elem.append(attributeElem)
-- 
2.43.0


From e61cefabe0000d9df903bb3f7cfb7ced6c997b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 13/41] fix: creating a reader altered the process-wide
 ElementTree namespace map

---
 ndg/xacml/parsers/etree/reader.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/ndg/xacml/parsers/etree/reader.py b/ndg/xacml/parsers/etree/reader.py
index c2e7c80..e15ba0f 100644
--- a/ndg/xacml/parsers/etree/reader.py
+++ b/ndg/xacml/parsers/etree/reader.py
@@ -12,10 +12,9 @@ __revision__ = "$Id$"
 import logging
 log = logging.getLogger(__name__)
 
-from ndg.xacml import Config, importElementTree
+from ndg.xacml import importElementTree
 ElementTree = importElementTree()
 
-from ndg.xacml.core import XacmlPolicyBase
 from ndg.xacml.parsers import AbstractReader
 
 
@@ -27,7 +26,7 @@ class ETreeAbstractReader(AbstractReader):
     TYPE = None
     
     def __init__(self):
-        """Initialise ElementTree namespace map for XACML 2.0 namespaces
+        """Check the class is set up
         
         @raise NotImplementedError: TYPE class variable must be set in a 
         derived class
@@ -35,15 +34,6 @@ class ETreeAbstractReader(AbstractReader):
         if self.__class__.TYPE is None:
             raise NotImplementedError('No "TYPE" class variable set to specify '
                                       'the XACML type to instantiate')
-            
-        if not Config.use_lxml:
-            self.__namespace_map_backup = ElementTree._namespace_map.copy()
-            ElementTree._namespace_map[''] = XacmlPolicyBase.XACML_2_0_POLICY_NS
-        
-    def __del__(self):
-        """Restore original global namespace map"""
-        if not Config.use_lxml:
-            ElementTree._namespace_map = self.__namespace_map_backup
     
     @staticmethod
     def _parse(obj):
-- 
2.43.0


From 487029b9af3154a329803e2f38dc2226a80d8e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 14/41] fix: a passing import failure disabled a function for
 good

FunctionMap.loadFunction recorded a function as not implemented on any
ImportError, so one failed read of an existing function module made every
later use of the function fail for the life of the process.
---
 ndg/xacml/core/functions/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index 0a62e6e..16ff382 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -680,6 +680,15 @@ class FunctionMap(VettedDict):
             log.error("Error importing function factory class %r for function "
                       "identifier %r: %s", classPath, functionNs, str(e))
             
+            if isinstance(e, ImportError):
+                # Only a missing module means that there is no implementation.
+                # Any other import failure may be a passing one so don't 
+                # remember it.
+                moduleName = classPath.rsplit('.', 1)[0]
+                if (not isinstance(e, ModuleNotFoundError) or 
+                    e.name != moduleName):
+                    raise
+            
             # No implementation exists - default to Abstract function
             self[functionNs] = NotImplemented
         else:
-- 
2.43.0


From eb8e2862e1dccca532f3fd130a4cc559cb5623a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 15/41] fix: UrlPolicyFinder never closed the documents it
 fetched

---
 ndg/xacml/finder/urlpolicyfinder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/finder/urlpolicyfinder.py b/ndg/xacml/finder/urlpolicyfinder.py
index 72b8bad..cf42157 100644
--- a/ndg/xacml/finder/urlpolicyfinder.py
+++ b/ndg/xacml/finder/urlpolicyfinder.py
@@ -99,7 +99,10 @@ class UrlPolicyFinder(PolicyFinderBase):
         """
         url = self._makeUrlFromReference(reference)
         policyDoc = urlfetcher.fetch_stream_from_url(url)
-        policy = PolicyBase.fromNestedSource(policyDoc, common)
+        try:
+            policy = PolicyBase.fromNestedSource(policyDoc, common)
+        finally:
+            policyDoc.close()
         return policy
 
     def _makeUrlFromReference(self, reference):
-- 
2.43.0


From 09038b52060117731a20bb74878b6478acf2ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 16/41] fix: circular policy references were fetched until the
 stack ran out

---
 ndg/xacml/finder/urlpolicyfinder.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/finder/urlpolicyfinder.py b/ndg/xacml/finder/urlpolicyfinder.py
index cf42157..6088a9c 100644
--- a/ndg/xacml/finder/urlpolicyfinder.py
+++ b/ndg/xacml/finder/urlpolicyfinder.py
@@ -39,6 +39,8 @@ class UrlPolicyFinder(PolicyFinderBase):
         '''
         super(UrlPolicyFinder, self).__init__()
         self.basePath = basePath
+        # URLs of the documents being read, to detect circular references
+        self._urlsInProgress = set()
 
     def findPolicy(self, policyIdReference, common):
         """
@@ -98,11 +100,17 @@ class UrlPolicyFinder(PolicyFinderBase):
         @raise XMLParseError: policy set of specified ID not found
         """
         url = self._makeUrlFromReference(reference)
-        policyDoc = urlfetcher.fetch_stream_from_url(url)
+        if url in self._urlsInProgress:
+            raise XMLParseError("Circular reference to %r" % reference)
+        self._urlsInProgress.add(url)
         try:
-            policy = PolicyBase.fromNestedSource(policyDoc, common)
+            policyDoc = urlfetcher.fetch_stream_from_url(url)
+            try:
+                policy = PolicyBase.fromNestedSource(policyDoc, common)
+            finally:
+                policyDoc.close()
         finally:
-            policyDoc.close()
+            self._urlsInProgress.discard(url)
         return policy
 
     def _makeUrlFromReference(self, reference):
-- 
2.43.0


From ab2652c6f6041289e00613cc4449030ea643850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 17/41] fix: prettyPrint changed the process-wide ElementTree
 namespace map

Prefixes were allocated in the shared map and the map replaced afterwards,
so concurrent calls lost or mixed up each other's prefixes.
---
 ndg/xacml/utils/etree.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index 2401f81..698ce39 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -58,18 +58,13 @@ def prettyPrint(*arg, **kw):
     # Keep track of namespace declarations made so they're not repeated
     declaredNss = []
     if not Config.use_lxml:
-        mappedPrefixes = dict.fromkeys(list(ElementTree._namespace_map.values()), True)
-        namespace_map_backup = ElementTree._namespace_map.copy()
+        # Work on a copy: the original is shared by the whole process
+        mappedPrefixes = ElementTree._namespace_map.copy()
     else:
         mappedPrefixes = {}
 
     _prettyPrint = _PrettyPrint(declaredNss, mappedPrefixes)
-    result = _prettyPrint(*arg, **kw)
-
-    if not Config.use_lxml:
-        ElementTree._namespace_map = namespace_map_backup
-
-    return result
+    return _prettyPrint(*arg, **kw)
 
 
 class _PrettyPrint(object):
@@ -183,20 +178,19 @@ class _PrettyPrint(object):
             """Allocate a namespace prefix if one is not already set for the given
             Namespace URI
             """
-            nsPrefix = ElementTree._namespace_map.get(nsURI)
+            nsPrefix = self.mappedPrefixes.get(nsURI)
             if nsPrefix is not None:
                 return nsPrefix
 
+            prefixesInUse = list(self.mappedPrefixes.values())
             for i in range(self.__class__.MAX_NS_TRIES):
                 nsPrefix = "ns%d" % i
-                if nsPrefix not in self.mappedPrefixes:
-                    ElementTree._namespace_map[nsURI] = nsPrefix
-                    self.mappedPrefixes[nsPrefix] = True
+                if nsPrefix not in prefixesInUse:
+                    self.mappedPrefixes[nsURI] = nsPrefix
                     break
 
-            if nsURI not in ElementTree._namespace_map:                            
-                raise KeyError('prettyPrint: error adding namespace '
-                               '"%s" to ElementTree._namespace_map' % 
-                               nsURI)   
+            if nsURI not in self.mappedPrefixes:
+                raise KeyError('prettyPrint: error allocating a prefix for '
+                               'namespace "%s"' % nsURI)
 
             return nsPrefix
-- 
2.43.0


From be22da55e2cb803fd7631c95070fa9da86f671af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 18/41] fix: prettyPrint output was not well-formed for text
 with markup characters

---
 ndg/xacml/utils/etree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index 698ce39..1dc74b0 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -9,6 +9,8 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = '$Id$'
 
+from xml.sax.saxutils import escape, quoteattr
+
 from ndg.xacml import Config, importElementTree
 ElementTree = importElementTree()
 
@@ -123,7 +125,8 @@ class _PrettyPrint(object):
                     nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix,attrNamespace)
                     self.declaredNss.append(attrNamespace)
                 
-            strAttribs.append('%s %s="%s"' % (nsDeclaration, attr, attrVal))
+            strAttribs.append('%s %s=%s' % (nsDeclaration, attr, 
+                                            quoteattr(str(attrVal))))
             
         strAttrib = ''.join(strAttribs)
         
@@ -142,7 +145,7 @@ class _PrettyPrint(object):
             self.declaredNss.append(namespace)
             
         result = '%s<%s%s%s>%s' % (indent, tag, nsDeclaration, strAttrib, 
-                                   _PrettyPrint.estrip(elem.text))
+                                   escape(_PrettyPrint.estrip(elem.text)))
         
         children = len(elem)
         if children:
@@ -152,7 +155,7 @@ class _PrettyPrint(object):
                 result += '\n'+ _prettyPrint(child, indent=indent+space) 
                 
             result += '\n%s%s</%s>' % (indent,
-                                     _PrettyPrint.estrip(child.tail),
+                                     escape(_PrettyPrint.estrip(child.tail)),
                                      tag)
         else:
             result += '</%s>' % tag
-- 
2.43.0


From 73341e82a663cb67950183bb3dfb52aee961f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 19/41] fix: a damaged function identifier was taken for the
 function its last part names

---
 ndg/xacml/core/functions/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index 16ff382..1c5c476 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -644,7 +644,12 @@ class FunctionMap(VettedDict):
             if functionNs.startswith(namespacePrefix):
                 # Namespace is recognised - translate into a path to a 
                 # function class in the right functions package
-                functionName = functionNs.split(namespacePrefix)[-1]
+                functionName = functionNs[len(namespacePrefix):]
+                if FunctionClassFactoryBase.URN_SEP in functionName:
+                    # Not a name in this namespace: leave it unrecognised 
+                    # rather than guess a function from its last part
+                    break
+                
                 functionNameParts = functionName.split('-')
                 
                 if len(functionNameParts) == 1:
-- 
2.43.0


From 352450ba6fdbc2881291fce307fa1e16869dd9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 20/41] fix: writing a request took the resource content out of
 its document

With lxml appending an element moves it: RequestElementTree.toXML removed the
ResourceContent from the request document, on which attribute selectors are
evaluated, and from any XML written before.
---
 ndg/xacml/parsers/etree/context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 2504388..9a6a3a9 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -9,6 +9,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 
+import copy
 import logging
 log = logging.getLogger(__name__)
 
@@ -209,7 +210,9 @@ class ResourceElementTree(Resource):
             if not ElementTree.iselement(resource.resourceContent):
                 raise TypeError("Expecting ElementTree element got %r" %
                                                 type(resource.resourceContent))
-            elem.append(resource.resourceContent)
+            # Append a copy: with lxml an element has one parent only, so that
+            # the content would be moved out of the document it belongs to.
+            elem.append(copy.deepcopy(resource.resourceContent))
 
         for attribute in resource.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
-- 
2.43.0


From 0893638925ff739dd4a9d0987eb27e3018d6caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 21/41] fix: an empty attribute value was read back as None

An empty string written by AttributeElementTree.toXML became an attribute
value without a value.
---
 ndg/xacml/parsers/etree/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 9a6a3a9..2860b2a 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -430,7 +430,8 @@ class AttributeElementTree(Attribute):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
-                attributeValue = AttributeValueClass(childElem.text)
+                # An empty element is an empty value, not a missing one.
+                attributeValue = AttributeValueClass(childElem.text or '')
                 attribute.attributeValues.append(attributeValue)
 
             else:
-- 
2.43.0


From d5d0cb7f91e59e983676507e673b5951aa27caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 22/41] fix: prettyPrint dropped the text between child
 elements

---
 ndg/xacml/utils/etree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index 1dc74b0..affb4dd 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -153,6 +153,11 @@ class _PrettyPrint(object):
                 declaredNss = self.declaredNss[:]
                 _prettyPrint = _PrettyPrint(declaredNss, self.mappedPrefixes)
                 result += '\n'+ _prettyPrint(child, indent=indent+space) 
+
+                # Text between this child and the next one
+                tail = escape(_PrettyPrint.estrip(child.tail))
+                if tail and child is not elem[-1]:
+                    result += '\n%s%s' % (indent+space, tail)
                 
             result += '\n%s%s</%s>' % (indent,
                                      escape(_PrettyPrint.estrip(child.tail)),
-- 
2.43.0


From c4d0228e1e14710fcb8a11a2db588507d1ee7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 23/41] fix: prettyPrint failed for elements in no namespace

With lxml it raised KeyError, with ElementTree the output was not
well-formed.
---
 ndg/xacml/utils/etree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index affb4dd..dcf64c6 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -131,14 +131,18 @@ class _PrettyPrint(object):
         strAttrib = ''.join(strAttribs)
         
         namespace = QName.getNs(elem.tag)
-        nsPrefix = self._getNamespacePrefix(elem, namespace)
-            
-        tag = "%s:%s" % (nsPrefix, QName.getLocalPart(elem.tag))
+        if namespace:
+            nsPrefix = self._getNamespacePrefix(elem, namespace)
+            tag = "%s:%s" % (nsPrefix, QName.getLocalPart(elem.tag))
+        else:
+            # No default namespace is ever declared, so that an element in no
+            # namespace needs no declaration
+            tag = elem.tag
         
         # Put in namespace declaration if one doesn't already exist
         # FIXME: namespace declaration handling is wrong for handling child
         # element scope
-        if namespace in self.declaredNss:
+        if not namespace or namespace in self.declaredNss:
             nsDeclaration = ''
         else:
             nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix, namespace)
-- 
2.43.0


From 9a0d1804c8f96be2a6441e0258d5703279b1a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 24/41] fix: prettyPrint failed for content with comments

---
 ndg/xacml/utils/etree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index dcf64c6..2173b03 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -154,9 +154,12 @@ class _PrettyPrint(object):
         children = len(elem)
         if children:
             for child in elem:
-                declaredNss = self.declaredNss[:]
-                _prettyPrint = _PrettyPrint(declaredNss, self.mappedPrefixes)
-                result += '\n'+ _prettyPrint(child, indent=indent+space) 
+                # Comments and processing instructions are left out
+                if isinstance(child.tag, str):
+                    declaredNss = self.declaredNss[:]
+                    _prettyPrint = _PrettyPrint(declaredNss,
+                                                self.mappedPrefixes)
+                    result += '\n'+ _prettyPrint(child, indent=indent+space) 
 
                 # Text between this child and the next one
                 tail = escape(_PrettyPrint.estrip(child.tail))
-- 
2.43.0


From 8ac44c891e10d840690c24e1e8ab2df172027e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 25/41] fix: with lxml a comment cut off the rest of an
 attribute value

---
 ndg/xacml/parsers/etree/__init__.py             | 15 +++++++++++++++
 ndg/xacml/parsers/etree/attributevaluereader.py |  7 ++++---
 ndg/xacml/parsers/etree/context.py              |  8 +++++---
 ndg/xacml/parsers/etree/policysetreader.py      |  7 ++++---
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index 372d390..e185525 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -68,6 +68,21 @@ def getElementChildren(element):
         yield childElem
 
 
+def getElementText(element):
+    """Text of an element up to its first child element.  Comments and
+    processing instructions, which lxml keeps in the tree, don't end the text.
+    @return: text or None if there is none
+    @rtype: basestring / None
+    """
+    text = element.text
+    for childElem in element:
+        if isinstance(childElem.tag, str):
+            break
+        if childElem.tail is not None:
+            text = (text or '') + childElem.tail
+    return text
+
+
 # Generic ElementTree Helper classes
 class QName(ElementTree.QName):
     """Extend ElementTree implementation for improved attribute access support
diff --git a/ndg/xacml/parsers/etree/attributevaluereader.py b/ndg/xacml/parsers/etree/attributevaluereader.py
index 08903c1..43c4e6a 100644
--- a/ndg/xacml/parsers/etree/attributevaluereader.py
+++ b/ndg/xacml/parsers/etree/attributevaluereader.py
@@ -12,7 +12,7 @@ __revision__ = "$Id$"
 from ndg.xacml.core.attributevalue import (AttributeValue, 
                                            AttributeValueClassFactory)
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementText
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 from ndg.xacml.utils import VettedDict
 
@@ -90,11 +90,12 @@ class AttributeValueReader(ExpressionReader):
 class ETreeDataTypeReaderBase(object):  
     @classmethod
     def parse(cls, elem, attributeValue):
-        if elem.text is None:
+        text = getElementText(elem)
+        if text is None:
             raise XMLParseError('No attribute value element found parsing %r' % 
                                 AttributeValueReader.TYPE.ELEMENT_LOCAL_NAME) 
             
-        attributeValue.value = elem.text
+        attributeValue.value = text
 
         
 class ETreeDataTypeReaderClassMap(VettedDict):
diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 2860b2a..33742cd 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -29,7 +29,8 @@ from ndg.xacml.core.context.result import Decision, Result
 from ndg.xacml.core.context.subject import Subject
 from ndg.xacml.parsers import XMLParseError
 import ndg.xacml.parsers.etree as etree
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import QName, getElementChildren, \
+    getElementText
 
 
 class RequestElementTree(Request):
@@ -431,7 +432,8 @@ class AttributeElementTree(Attribute):
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
                 # An empty element is an empty value, not a missing one.
-                attributeValue = AttributeValueClass(childElem.text or '')
+                attributeValue = AttributeValueClass(
+                                                getElementText(childElem) or '')
                 attribute.attributeValues.append(attributeValue)
 
             else:
@@ -612,6 +614,6 @@ class DecisionElementTree(Decision):
 
         decision = Decision()
 
-        decision.value = elem.text
+        decision.value = getElementText(elem)
 
         return decision
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index c59b9d1..5498f1f 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren, 
+                                     getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -122,7 +123,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policy)
 
             elif localName == Policy.POLICY_ID_REFERENCE:
-                policyIdReference = childElem.text
+                policyIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicy(common,
                                                             policyIdReference))
 
@@ -132,7 +133,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policySetChild)
 
             elif localName == PolicySet.POLICY_SET_ID_REFERENCE:
-                policySetIdReference = childElem.text
+                policySetIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicySet(common,
                                                         policySetIdReference))
 
-- 
2.43.0


From d95cb68de9bb2d6566192ef844d9863b9d56a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 26/41] fix: an element inside an attribute value silently cut
 off the rest of it

---
 ndg/xacml/parsers/etree/attributevaluereader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/attributevaluereader.py b/ndg/xacml/parsers/etree/attributevaluereader.py
index 43c4e6a..9302c66 100644
--- a/ndg/xacml/parsers/etree/attributevaluereader.py
+++ b/ndg/xacml/parsers/etree/attributevaluereader.py
@@ -12,7 +12,8 @@ __revision__ = "$Id$"
 from ndg.xacml.core.attributevalue import (AttributeValue, 
                                            AttributeValueClassFactory)
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName, getElementText
+from ndg.xacml.parsers.etree import (QName, getElementChildren, 
+                                     getElementText)
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 from ndg.xacml.utils import VettedDict
 
@@ -90,6 +91,14 @@ class AttributeValueReader(ExpressionReader):
 class ETreeDataTypeReaderBase(object):  
     @classmethod
     def parse(cls, elem, attributeValue):
+        # A plain value has no structure: text following an element would
+        # otherwise be left out of it.
+        for childElem in getElementChildren(elem):
+            raise XMLParseError('%r element not allowed in the %r value of an '
+                                '%r' % (QName.getLocalPart(childElem.tag),
+                                        attributeValue.dataType,
+                                    AttributeValueReader.TYPE.ELEMENT_LOCAL_NAME))
+
         text = getElementText(elem)
         if text is None:
             raise XMLParseError('No attribute value element found parsing %r' % 
-- 
2.43.0


From 15b421267a274ea1762de3c4d8b55a481d41b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 27/41] fix: attribute selectors failed for empty elements and
 lost text after a comment

---
 ndg/xacml/utils/xpath_selector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index f8d7bc9..32c1006 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -12,6 +12,8 @@ from abc import ABCMeta, abstractmethod
 from ndg.xacml import Config, importElementTree
 ElementTree = importElementTree()
 
+from ndg.xacml.parsers.etree import getElementText
+
 class XPathSelectorInterface(object, metaclass=ABCMeta):
     """Interface for XPath selectors.
     """
@@ -70,7 +72,7 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 # Allow for XPath expression selecting element text or attribute
                 # values.
                 if hasattr(m, 'text'):
-                    returnList.append(m.text)
+                    returnList.append(getElementText(m) or '')
                 else:
                     returnList.append(m.__str__())
             return returnList
@@ -90,4 +92,4 @@ class EtreeXPathSelector(XPathSelectorInterface):
             else:
                 relPath = path
             elems = self.contextElem.findall(relPath)
-            return [e.text for e in elems]
+            return [getElementText(e) or '' for e in elems]
-- 
2.43.0


From ae7144008a3863f12d7ba4843cc5f943dd447d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 28/41] fix: prettyPrint did not escape namespace addresses

---
 ndg/xacml/utils/etree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index 2173b03..28a6b66 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -122,7 +122,8 @@ class _PrettyPrint(object):
                 attr = "%s:%s" % (nsPrefix, QName.getLocalPart(attr))
                 
                 if attrNamespace not in self.declaredNss:
-                    nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix,attrNamespace)
+                    nsDeclaration = ' xmlns:%s=%s' % (nsPrefix, 
+                                                         quoteattr(attrNamespace))
                     self.declaredNss.append(attrNamespace)
                 
             strAttribs.append('%s %s=%s' % (nsDeclaration, attr, 
@@ -145,7 +146,7 @@ class _PrettyPrint(object):
         if not namespace or namespace in self.declaredNss:
             nsDeclaration = ''
         else:
-            nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix, namespace)
+            nsDeclaration = ' xmlns:%s=%s' % (nsPrefix, quoteattr(namespace))
             self.declaredNss.append(namespace)
             
         result = '%s<%s%s%s>%s' % (indent, tag, nsDeclaration, strAttrib, 
-- 
2.43.0


From b20d405662a9dc816efe05856b45ac53e214946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 29/41] fix: concurrent module loads left entries in sys.path

---
 ndg/xacml/utils/factory.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/utils/factory.py b/ndg/xacml/utils/factory.py
index ab1aead..e278f22 100644
--- a/ndg/xacml/utils/factory.py
+++ b/ndg/xacml/utils/factory.py
@@ -10,9 +10,12 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = '$Id$'
 import traceback
-import logging, os, sys
+import logging, os, sys, threading
 log = logging.getLogger(__name__)
 
+# Guards changes to sys.path
+_sysPathLock = threading.Lock()
+
 
 def importModuleObject(moduleName, objectName=None, objectType=None):
     '''Import from a string module name and object name.  Object can be
@@ -102,7 +105,8 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
                                   moduleFilePath)
                           
                 # Temporarily extend system path ready for import
-                sys.path.append(moduleFilePath)
+                with _sysPathLock:
+                    sys.path.append(moduleFilePath)
                 sysPathExtended = True
 
             
@@ -116,8 +120,10 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
             # block - not both combined
             if sysPathExtended:
                 # Take out the last occurrence i.e. the one added above
-                i = len(sys.path) - 1 - sys.path[::-1].index(moduleFilePath)
-                del sys.path[i]
+                with _sysPathLock:
+                    i = (len(sys.path) - 1 - 
+                         sys.path[::-1].index(moduleFilePath))
+                    del sys.path[i]
                             
     except Exception as e:
         log.debug('%r module import raised %r type exception: %s', 
-- 
2.43.0


From 160c7695d4f3ee99e0397b8c9f6e4bd411f399bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 30/41] fix: a concurrent look-up undid the registration of a
 custom function

load_custom_function in one thread while another looked the identifier up for
the first time: the look-up, finding no module for it, could afterwards replace
the registered function by NotImplemented for good.
---
 ndg/xacml/core/functions/__init__.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index 1c5c476..950a9f5 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -11,6 +11,7 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from abc import ABCMeta, abstractmethod
 from datetime import datetime, timedelta
+import threading
 import traceback
 import logging
 log = logging.getLogger(__name__)
@@ -21,6 +22,9 @@ from ndg.xacml.utils import VettedDict, _isIterable
 from ndg.xacml.utils.factory import callModuleObject
 
 
+# Guards the check and set of function map entries
+_functionMapLock = threading.Lock()
+
 # Mapping for function name prefixes that are not real types, but play a similar
 # role
 SPECIAL_TYPE_MAP = {
@@ -633,7 +637,7 @@ class FunctionMap(VettedDict):
         functionFactory = self.__classFactoryMap.get(functionNs)
         if functionFactory is not None:
             # Get function class from previously cached factory
-            self[functionNs] = functionFactory(functionNs)
+            self.__setLoaded(functionNs, functionFactory(functionNs))
             return
             
         # No Factory has been cached for this function yet
@@ -695,15 +699,29 @@ class FunctionMap(VettedDict):
                     raise
             
             # No implementation exists - default to Abstract function
-            self[functionNs] = NotImplemented
+            self.__setLoaded(functionNs, NotImplemented)
         else:
             function = functionFactory(functionNs)
             if function is None:
                 raise unsupportedFunctionErrorFactory(functionNs)
                 
-            self[functionNs] = function
+            self.__setLoaded(functionNs, function)
             self.__classFactoryMap[functionNs] = functionFactory
     
+    def __setLoaded(self, functionNs, function):
+        """Keep the outcome of loading a function unless an entry was made 
+        meanwhile: another thread may have registered a custom function
+        
+        @param functionNs: XACML function namespace
+        @type functionNs: basestring
+        @param function: function class
+        @type function: ndg.xacml.core.functions.AbstractFunction / 
+        NotImplemented
+        """
+        with _functionMapLock:
+            if functionNs not in self:
+                self[functionNs] = function
+        
     def load_custom_function(self, 
                              function_ns, 
                              function_factory=None,
@@ -733,7 +751,8 @@ class FunctionMap(VettedDict):
         if function is None:
             raise unsupportedFunctionErrorFactory(function_ns)
         
-        self[function_ns] = function
+        with _functionMapLock:
+            self[function_ns] = function
         self.__custom_class_factory_map[function_ns] = function_factory
          
     def __getitem__(self, key):
-- 
2.43.0


From 91bd37bea12e2d024f7c7fb280e094e8ebacb39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 31/41] fix: a misspelt MustBePresent of a designator or
 selector counted as false

so did one with white space around it, e.g. " true ".
---
 ndg/xacml/utils/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 30d9fa5..4d559b5 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -11,8 +11,21 @@ __revision__ = '$Id$'
 from collections.abc import MutableMapping
 
 
-# Interpret a string as a boolean
-str2Bool = lambda str: str.lower() in ("yes", "true", "t", "1")
+def str2Bool(value):
+    """Interpret a string as a boolean
+    @param value: string, surrounding white space is ignored
+    @type value: string
+    @return: boolean value
+    @rtype: bool
+    @raise ValueError: the string is not one for a boolean
+    """
+    boolStr = value.strip().lower()
+    if boolStr in ("yes", "true", "t", "1"):
+        return True
+    if boolStr in ("no", "false", "f", "0"):
+        return False
+    raise ValueError("%r is not a boolean value" % value)
+
 
 class UniqList(list):
     """Extended version of list type to enable a list with unique items.
-- 
2.43.0


From d14bf94da5b32169603bbfdd10689271c74fac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 32/41] fix: UniqList accepted items repeated within the input
 of extend and +=, of its constructor and of insert

---
 ndg/xacml/utils/__init__.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 4d559b5..e9b8d52 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -33,20 +33,49 @@ class UniqList(list):
     from the list
     """
     
+    def __init__(self, *arg):
+        """Initialise as a list, omitting repeated items
+        """
+        super(UniqList, self).__init__()
+        for iter in arg:
+            self.extend(iter)
+    
+    def __newItems(self, iter):
+        """@param iter: iterable object
+        @type iter: iterable type
+        @return: items which are not in this list, each one once
+        @rtype: list
+        """
+        newItems = []
+        for i in list(iter):
+            if i not in self and i not in newItems:
+                newItems.append(i)
+                
+        return newItems
+    
+    def insert(self, index, item):
+        """Insert an item into the list
+        @param index: index of the item to insert before
+        @type index: int
+        @param item: item to insert
+        @type item: any
+        """
+        if item not in self:
+            super(UniqList, self).insert(index, item)
+    
     def extend(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).extend([i for i in iter if i not in self])
+        return super(UniqList, self).extend(self.__newItems(iter))
         
     def __iadd__(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).__iadd__([i for i in iter 
-                                               if i not in self])
+        return super(UniqList, self).__iadd__(self.__newItems(iter))
          
     def append(self, item):
         """Add an item to the list
-- 
2.43.0


From 9d81340638861eac29896d44c93c4f7f9af81d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 33/41] fix: TypedList accepted items of any type in its
 constructor, insert and item assignment

---
 ndg/xacml/utils/__init__.py | 39 +++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index e9b8d52..4545ea6 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -103,6 +103,45 @@ class TypedList(list):
         """
         self.__elementType = elementType
         super(TypedList, self).__init__(*arg, **kw)
+        for i in self:
+            self.__checkType(i)
+
+    def __checkType(self, item):
+        """@param item: item to be held in the list
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        if not isinstance(item, self.__elementType):
+            raise TypeError("List items must be of type %s" % 
+                            (self.__elementType,))
+
+    def __setitem__(self, index, val):
+        """Replace an item or items of the list
+        @param index: index or slice
+        @type index: int / slice
+        @param val: item or, for a slice, iterable of items
+        @type val: any
+        @raise TypeError: input item doesn't match list type
+        """
+        if isinstance(index, slice):
+            val = list(val)
+            for i in val:
+                self.__checkType(i)
+        else:
+            self.__checkType(val)
+
+        super(TypedList, self).__setitem__(index, val)
+
+    def insert(self, index, item):
+        """Insert an item into the list
+        @param index: index of the item to insert before
+        @type index: int
+        @param item: item to insert
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        self.__checkType(item)
+        super(TypedList, self).insert(index, item)
 
     def __repr__(self):
         """@return: represent instance giving type information about the 
-- 
2.43.0


From 726c27bdd07b579285a2a30a3ed26b21644dbafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 34/41] fix: RestrictedKeyNamesDict.update failed with
 TypeError for an unknown key, setdefault and |= accepted it

---
 ndg/xacml/utils/__init__.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 4545ea6..7d1d8e5 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -226,18 +226,39 @@ class RestrictedKeyNamesDict(dict):
             
         dict.__setitem__(self, key, val)
 
-    def update(self, d, **kw):        
+    def setdefault(self, key, default=None):
+        """@param key: key for item to retrieve
+        @type key: any
+        @param default: value to set if there is no item for this key
+        @type default: any
+        @return: value for this key
+        @rtype: any
+        """
+        if key not in self:
+            self[key] = default
+
+        return self[key]
+
+    def __ior__(self, d):
+        """@param d: dictionary to update from
+        @type d: dict
+        """
+        self.update(d)
+        return self
+
+    def update(self, d=(), **kw):        
         """@param d: dictionary to update from
         @type d: dict
         @param kw: keywords to update dictionary with
         @type kw: dict
         """
+        d = dict(d)
         for dictArg in (d, kw):
             for k in dictArg:
                 if k not in self.__keyNames:
                     raise KeyError('Key name "%s" not recognised.  Valid '
                                    'key names are: %s' % 
-                                   self.__keyNames)
+                                   (k, self.__keyNames))
         
         dict.update(self, d, **kw)
         
-- 
2.43.0


From 6e3a72fd56d0dfc7224c92441cb6c5d7d78d4815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 35/41] fix: an attribute selector doesn't split a computed
 string into characters

---
 ndg/xacml/utils/xpath_selector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index 32c1006..7ed7775 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -67,6 +67,10 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 relPath = path
             find = ElementTree.ETXPath(relPath)
             elems = find(self.contextElem)
+            if not isinstance(elems, list):
+                # A string would be taken apart into its characters
+                raise ValueError('XPath expression %r selects no nodes but '
+                                 'yields %r' % (path, elems))
             returnList = []
             for m in elems:
                 # Allow for XPath expression selecting element text or attribute
-- 
2.43.0


From 4e75102eba3250e645aad69997fde8b07711b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 36/41] fix: an attribute selector yields each selected node
 once

---
 ndg/xacml/utils/xpath_selector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index 7ed7775..20a626a 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -95,5 +95,6 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 relPath = '.' + path
             else:
                 relPath = path
-            elems = self.contextElem.findall(relPath)
+            # findall gives a node once for each way of reaching it
+            elems = dict.fromkeys(self.contextElem.findall(relPath))
             return [getElementText(e) or '' for e in elems]
-- 
2.43.0


From e5e6d17954338ab70ff76e29fcf914a46acb0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 37/41] fix: choose the route of each request, including
 redirected ones, by no_proxy

The host of the original address alone decided whether proxies were used:
after a redirection from a host listed in no_proxy all other hosts were
contacted directly, too.
---
 ndg/xacml/utils/urlfetcher.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ndg/xacml/utils/urlfetcher.py b/ndg/xacml/utils/urlfetcher.py
index ac973ab..8ebc359 100644
--- a/ndg/xacml/utils/urlfetcher.py
+++ b/ndg/xacml/utils/urlfetcher.py
@@ -16,6 +16,17 @@ import urllib.parse
 
 log = logging.getLogger(__name__)
 
+class _ProxyHandler(urllib.request.ProxyHandler):
+    """Leaves out the proxy for the hosts listed in the value of the no_proxy
+    environment variable. This is determined for each request since a
+    redirection may lead from a host that is listed to one that is not.
+    """
+    def proxy_open(self, req, proxy, type):
+        if not _should_use_proxy(req.full_url):
+            log.debug("Not using proxy")
+            return None
+        return super(_ProxyHandler, self).proxy_open(req, proxy, type)
+
 def fetch_stream_from_url(url, debug=False):
     """Returns data retrieved from a URL.
     @param url: URL to attempt to open
@@ -60,15 +71,11 @@ def open_url(url, debug=False):
     # Set up handlers for URL opener.
     http_handler = urllib.request.HTTPHandler(debuglevel=debuglevel)
 
-    handlers = [http_handler]
-
     # Explicitly remove proxy handling if the host is one listed in the value of
     # the no_proxy environment variable because urllib2 does use proxy settings
     # set via http_proxy and https_proxy, but does not take the no_proxy value
     # into account.
-    if not _should_use_proxy(url):
-        handlers.append(urllib.request.ProxyHandler({}))
-        log.debug("Not using proxy")
+    handlers = [http_handler, _ProxyHandler()]
 
     opener = urllib.request.build_opener(*handlers)
 
-- 
2.43.0


From b62ebb750206acdf6cd017b666a6395fcee6c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:59 +0000
Subject: [PATCH 38/41] fix: leave no lock held in a child forked while another
 thread imports or loads a function

---
 ndg/xacml/core/functions/__init__.py | 11 ++---------
 ndg/xacml/utils/__init__.py          | 12 ++++++++++++
 ndg/xacml/utils/factory.py           | 10 ++++++++++
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index 950a9f5..b99859a 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -11,7 +11,6 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from abc import ABCMeta, abstractmethod
 from datetime import datetime, timedelta
-import threading
 import traceback
 import logging
 log = logging.getLogger(__name__)
@@ -22,9 +21,6 @@ from ndg.xacml.utils import VettedDict, _isIterable
 from ndg.xacml.utils.factory import callModuleObject
 
 
-# Guards the check and set of function map entries
-_functionMapLock = threading.Lock()
-
 # Mapping for function name prefixes that are not real types, but play a similar
 # role
 SPECIAL_TYPE_MAP = {
@@ -718,9 +714,7 @@ class FunctionMap(VettedDict):
         @type function: ndg.xacml.core.functions.AbstractFunction / 
         NotImplemented
         """
-        with _functionMapLock:
-            if functionNs not in self:
-                self[functionNs] = function
+        self._setIfAbsent(functionNs, function)
         
     def load_custom_function(self, 
                              function_ns, 
@@ -751,8 +745,7 @@ class FunctionMap(VettedDict):
         if function is None:
             raise unsupportedFunctionErrorFactory(function_ns)
         
-        with _functionMapLock:
-            self[function_ns] = function
+        self[function_ns] = function
         self.__custom_class_factory_map[function_ns] = function_factory
          
     def __getitem__(self, key):
diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 7d1d8e5..48794ec 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -323,6 +323,18 @@ class VettedDict(MutableMapping):
         if self._verifyKeyValPair(key, val):
             self.__map[key] = val
 
+    def _setIfAbsent(self, key, val):
+        """Set a new item unless the key has one already, in a single step: no 
+        other thread can come in between and no lock is needed for it
+        
+        @param key: key for item to set
+        @type key: any
+        @param val: value to set for this key
+        @type val: any
+        """       
+        if self._verifyKeyValPair(key, val):
+            self.__map.setdefault(key, val)
+
     def __getitem__(self, key):
         """Provide implementation for getting items
         @param key: key for item to retrieve
diff --git a/ndg/xacml/utils/factory.py b/ndg/xacml/utils/factory.py
index e278f22..9bfb4a7 100644
--- a/ndg/xacml/utils/factory.py
+++ b/ndg/xacml/utils/factory.py
@@ -17,6 +17,16 @@ log = logging.getLogger(__name__)
 _sysPathLock = threading.Lock()
 
 
+def _renewSysPathLock():
+    '''The thread holding the lock, if any, doesn't exist in a forked child
+    '''
+    global _sysPathLock
+    _sysPathLock = threading.Lock()
+
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(after_in_child=_renewSysPathLock)
+
+
 def importModuleObject(moduleName, objectName=None, objectType=None):
     '''Import from a string module name and object name.  Object can be
     any entity contained in a module
-- 
2.43.0


From 0b58722bf6df0894f19b26c9cbddeca973ab72ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:55 +0000
Subject: [PATCH 39/41] fix: keep no growing collection of compiled regular
 expressions

---
 ndg/xacml/core/functions/v1/regexp_match.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/ndg/xacml/core/functions/v1/regexp_match.py b/ndg/xacml/core/functions/v1/regexp_match.py
index 8777a60..1eae20c 100644
--- a/ndg/xacml/core/functions/v1/regexp_match.py
+++ b/ndg/xacml/core/functions/v1/regexp_match.py
@@ -32,16 +32,11 @@ class RegexpMatchBase(AbstractFunction):
     
     @cvar CLASS_NAME_SUFFIX: suffix for all regular expression class names
     @type CLASS_NAME_SUFFIX: string
-    
-    @cvar compiled_regexes: cache of compiled regular expressions
-    @type compiled_regexes: dict of string mappings to re.RegexObject
     """
     FUNCTION_NS = None
     FUNCTION_NS_SUFFIX = '-regexp-match'
     CLASS_NAME_SUFFIX = 'RegexpMatch'
     TYPE = None
-
-    compiled_regexes = {}
     
     def evaluate(self, pat, input):
         """Match URI against regular expression pattern
@@ -61,11 +56,9 @@ class RegexpMatchBase(AbstractFunction):
             raise TypeError('Expecting %r derived type for "input"; got %r' %
                             (self.__class__.TYPE, type(input)))
             
-        compiled_regex = self.compiled_regexes.get(pat.value, None)
-        if compiled_regex is None:
-            compiled_regex = re.compile(pat.value)
-            self.compiled_regexes[pat.value] = compiled_regex
-        return bool(compiled_regex.match(input.value))
+        # The re module keeps the latest patterns compiled. A collection of all
+        # of them would grow for ever: a pattern can come with a request
+        return bool(re.match(pat.value, input.value))
     
 
 attributeValueClassFactory = AttributeValueClassFactory()
-- 
2.43.0


From 61db789546f0e746c5bacd79b653c6983c690536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:49 +0000
Subject: [PATCH 40/41] fix: read EnvironmentMatch and
 EnvironmentAttributeDesignator elements

A policy whose target or condition speaks about the environment could not
be loaded: the readers that ReaderFactory looks for did not exist.
---
 .../environmentattributedesignatorreader.py   | 23 +++++++++++++++
 .../parsers/etree/environmentmatchreader.py   | 29 +++++++++++++++++++
 2 files changed, 52 insertions(+)
 create mode 100644 ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
 create mode 100644 ndg/xacml/parsers/etree/environmentmatchreader.py

diff --git a/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
new file mode 100644
index 0000000..7c38776
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
@@ -0,0 +1,23 @@
+"""NDG XACML ElementTree based reader for EnvironmentAttributeDesignator type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "16/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.attributedesignatorreader import \
+    AttributeDesignatorReaderBase
+
+
+class EnvironmentAttributeDesignatorReader(AttributeDesignatorReaderBase): 
+    '''ElementTree based XACML Environment Attribute Designator type parser
+    
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: abc.ABCMeta
+    '''
+    TYPE = EnvironmentAttributeDesignator
diff --git a/ndg/xacml/parsers/etree/environmentmatchreader.py b/ndg/xacml/parsers/etree/environmentmatchreader.py
new file mode 100644
index 0000000..40290e2
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentmatchreader.py
@@ -0,0 +1,29 @@
+"""NDG XACML ElementTree based reader for environment match type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "16/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.match import EnvironmentMatch
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.matchreader import MatchReaderBase
+
+
+class EnvironmentMatchReader(MatchReaderBase):
+    """ElementTree based parser for XACML EnvironmentMatch
+        
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: type
+    
+    @cvar ATTRIBUTE_DESIGNATOR_TYPE: type of attribute designator that this 
+    match type holds
+    @type ATTRIBUTE_DESIGNATOR_TYPE: abc.ABCMeta
+    """
+    TYPE = EnvironmentMatch
+    ATTRIBUTE_DESIGNATOR_TYPE = EnvironmentAttributeDesignator
+    
-- 
2.43.0


From bf51f31de96a953a1540777f7438e3a87a4c94e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:27 +0000
Subject: [PATCH 41/41] fix: keep UniqList unique under item assignment and *=

Item and slice assignment and in-place repetition were those of list and
could put an item into the list twice.
---
 ndg/xacml/utils/__init__.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 48794ec..571bb23 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -63,6 +63,38 @@ class UniqList(list):
         if item not in self:
             super(UniqList, self).insert(index, item)
     
+    def __setitem__(self, index, val):
+        """Replace an item or items of the list, omitting what the rest of the
+        list has already
+        @param index: index or slice
+        @type index: int / slice
+        @param val: item or, for a slice, iterable of items
+        @type val: any
+        """
+        if isinstance(index, slice):
+            items = list(val)
+            rest = list(self)
+            del rest[index]
+            val = []
+            for i in items:
+                if i not in rest and i not in val:
+                    val.append(i)
+        else:
+            rest = list(self)
+            del rest[index]
+            if val in rest:
+                return None
+
+        super(UniqList, self).__setitem__(index, val)
+
+    def __imul__(self, number):
+        """Repeat the items: as each one is present already, only a number
+        less than one makes a difference
+        @param number: number of times to repeat the items
+        @type number: int
+        """
+        return super(UniqList, self).__imul__(min(number, 1))
+
     def extend(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
-- 
2.43.0

