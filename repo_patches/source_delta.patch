From 36829238f60cfa8536780b3360a8859dec8bb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 01/48] fix: OList item deletion, in-place operators and clear
 keep contents and events in step

---
 vrml/olist.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index c129852..71360c0 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -81,12 +81,13 @@ class OList( list ):
         """Delete a single item"""
         if isinstance( index, slice ):
             current = self.__getitem__( index )
+            super( OList,self ).__delitem__( index )
             for value in current:
                 self._sendRemoved( value )
-            super( OList,self ).__delitem__( index )
             return current 
         else:
             value = self[index]
+            super( OList,self ).__delitem__( index )
             self._sendRemoved( value )
         return value
     def __delslice__( self, i,j):
@@ -119,8 +120,20 @@ class OList( list ):
             return value 
     def __setslice__( self, i,j, iterable ):
         return self.__setitem__( slice(i,j), iterable)
+    def extend( self, iterable ):
+        """Append every value of iterable"""
+        return self.__setitem__( slice(len(self),len(self)), iterable )
     def __iadd__( self, iterable ):
         """Do an in-place add"""
-        return self.__setitem__( slice(len(self),len(self)), iterable )
-    extend = __iadd__
-    
+        self.extend( iterable )
+        return self
+    def __imul__( self, count ):
+        """Do an in-place repeat"""
+        if count < 1:
+            del self[:]
+        else:
+            self.extend( list(self) * (count-1) )
+        return self
+    def clear( self ):
+        """Remove every item"""
+        del self[:]
-- 
2.43.0


From edc896966b859ba5ee681b7c652333f56f3fb313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 02/48] fix: pure-Python fields delete the stored value and
 notify like the compiled ones

---
 vrml/field.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 95b8e09..17824bc 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -167,19 +167,20 @@ else:
 
         def __delete__(self, client):
             """Delete our value from client's dictionary"""
-            try:
-                client.__dict__[self.name]
-            except KeyError:
-                raise AttributeError(self.name)
+            self.fdel(client)
 
         def fdel(self, client, notify=True):
             """Delete with notify"""
-            self.__delete__(client)
+            try:
+                value = client.__dict__.pop(self.name)
+            except KeyError:
+                raise AttributeError(self.name)
             if notify:
                 dispatcher.send(
                     ('del', self),
                     client,
                 )
+            return value
 
 
 class Field(BaseField):
-- 
2.43.0


From 7d6282a6b6f2038d3b3982dcdbdbc0cb3901ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 03/48] fix: WeakList item access, slicing, in-place add and
 sort work on Python 3

---
 vrml/weaklist.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index bfff2e0..d761184 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -1,5 +1,6 @@
 """list sub-class which holds weak references to objects"""
 
+import functools
 import weakref
 import types
 
@@ -52,7 +53,7 @@ class WeakList( list ):
         """
         return [
             self.unwrap(obj)
-            for obj in super( WeakList,self).__getslice__(0,len(self))
+            for obj in super( WeakList,self).__iter__()
         ]
     def __iter__( self ):
         """Iterate over the list, yielding strong references"""
@@ -66,7 +67,7 @@ class WeakList( list ):
         if isinstance( index, slice ):
             item = [self.wrap(x) for x in item]
         else:
-            item = self.wrap(x)
+            item = self.wrap(item)
         return super( WeakList,self).__setitem__(
             index, item
         )
@@ -84,11 +85,26 @@ class WeakList( list ):
         return super( WeakList, self).extend([
             self.wrap(obj) for obj in sequence 
         ])
-    __iadd__ = extend
+    def __iadd__( self, sequence ):
+        """Extend this list in-place with another sequence"""
+        self.extend( sequence )
+        return self
+    def __add__( self, sequence ):
+        """Create new weak list with our items and those of sequence"""
+        return self.__class__( self.get() + list( sequence ))
+    def __reversed__( self ):
+        """Iterate over the list in reverse order, yielding strong references"""
+        return reversed( self.get())
+    def copy( self ):
+        """Create new weak list with the same items"""
+        return self.__class__( self.get())
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
-        return self.unwrap(super (WeakList,self).__getitem__( index))
+        item = super (WeakList,self).__getitem__( index)
+        if isinstance( index, slice ):
+            return [ self.unwrap( obj ) for obj in item ]
+        return self.unwrap( item )
     def pop( self, index=-1 ):
         """Pop an item from the list, removing it and returning it"""
         return self.unwrap( super(WeakList,self).pop(index))
@@ -116,7 +132,7 @@ class WeakList( list ):
         """
         t = self.get()
         if function is not None:
-            result = t.sort( function )
+            result = t.sort( key=functools.cmp_to_key( function ))
         else:
             result = t.sort( )
         self[:] = t
-- 
2.43.0


From ea526446b8091104acc6e4ea18be4f1b4e951ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 04/48] fix: WeakTuple construction, slicing and comparison
 work on Python 3

---
 vrml/weaktuple.py | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/vrml/weaktuple.py b/vrml/weaktuple.py
index 7ca6708..34a4a0f 100644
--- a/vrml/weaktuple.py
+++ b/vrml/weaktuple.py
@@ -25,13 +25,13 @@ class WeakTuple( tuple ):
     missing items as does the WeakList.  This can
     occur for basically _any_ use of the tuple.
     """
-    def __init__( self, sequence=() ):
-        """Initialize the tuple
+    def __new__( cls, sequence=() ):
+        """Create the tuple
 
         The WeakTuple will store weak references to objects
         within the sequence.
         """
-        super( WeakTuple, self).__init__( [self.wrap(obj) for obj in sequence])
+        return super( WeakTuple, cls).__new__( cls, [cls.wrap(obj) for obj in sequence])
 
     def valid( self ):
         """Explicit validity check for the tuple
@@ -43,10 +43,11 @@ class WeakTuple( tuple ):
         try:
             list( self )
             return 1
-        except weakref.ReferenceError:
+        except ReferenceError:
             return 0
         
-    def wrap( self, item ):
+    @staticmethod
+    def wrap( item ):
         """Wrap an individual item in a weak-reference
 
         If the item is already a weak reference, we store
@@ -66,7 +67,7 @@ class WeakTuple( tuple ):
         """
         ref = item()
         if ref is None:
-            raise weakref.ReferenceError( """%s instance no longer valid (item %s has been collected)"""%( self.__class__.__name__, item))
+            raise ReferenceError( """%s instance no longer valid (item %s has been collected)"""%( self.__class__.__name__, item))
         return ref
 
     def __iter__( self ):
@@ -78,13 +79,10 @@ class WeakTuple( tuple ):
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
-        return self.unwrap(super (WeakTuple,self).__getitem__( index ))
-    def __getslice__( self, start, stop ):
-        """Get the items in the range start to stop"""
-        return [
-            self.unwrap(obj) 
-            for obj in super (WeakTuple,self).__getslice__( start, stop)
-        ]
+        item = super (WeakTuple,self).__getitem__( index )
+        if isinstance( index, slice ):
+            return tuple([ self.unwrap(obj) for obj in item ])
+        return self.unwrap( item )
     def __contains__( self, item ):
         """Return boolean indicating whether the item is in the tuple"""
         for node in self:
@@ -109,28 +107,36 @@ class WeakTuple( tuple ):
 
     def __add__(self, other):
         """Return a new path with other as tail"""
+        if isinstance( other, WeakTuple ):
+            other = tuple( other )
         return tuple(self) + other
+
+    def _comparable( self, sequence ):
+        """Get sequence in a form comparable to a list of our items"""
+        if isinstance( sequence, tuple ):
+            return list( sequence )
+        return sequence
     
     def __eq__( self, sequence ):
         """Compare the tuple to another (==)"""
-        return list(self) == sequence
+        return list(self) == self._comparable( sequence )
     def __ge__( self, sequence ):
         """Compare the tuple to another (>=)"""
-        return list(self) >= sequence
+        return list(self) >= self._comparable( sequence )
     def __gt__( self, sequence ):
         """Compare the tuple to another (>)"""
-        return list(self) > sequence
+        return list(self) > self._comparable( sequence )
         
     def __le__( self, sequence ):
         """Compare the tuple to another (<=)"""
-        return list(self) <= sequence
+        return list(self) <= self._comparable( sequence )
     def __lt__( self, sequence ):
         """Compare the tuple to another (<)"""
-        return list(self) < sequence
+        return list(self) < self._comparable( sequence )
 
     def __ne__( self, sequence ):
         """Compare the tuple to another (!=)"""
-        return list(self) != sequence
+        return list(self) != self._comparable( sequence )
 
     def __repr__( self ):
         """Return a code-like representation of the weak tuple"""
-- 
2.43.0


From 9dcd8cdb18c46c7502356d5808d9830b0b08cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 05/48] fix: WeakKeyDictionary initialises the state its base
 class needs

---
 vrml/weakkeydictfix.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/vrml/weakkeydictfix.py b/vrml/weakkeydictfix.py
index a7341ae..27c2188 100644
--- a/vrml/weakkeydictfix.py
+++ b/vrml/weakkeydictfix.py
@@ -16,18 +16,7 @@ class WeakKeyDictionary( weakref.WeakKeyDictionary ):
         dict -- previously-existing weak key records or
             None to create a new dictionary
         """
-        self.data = {}
-        def remove(k, selfref=ref(self)):
-            self = selfref()
-            if self is not None and self.data:
-                try:
-                    v = self.data.get( k )
-                    del self.data[k]
-                except (KeyError,RuntimeError):
-                    pass
-            # now v goes out of scope and is deleted...
-        self._remove = remove
-        if dict is not None: self.update(dict)
+        weakref.WeakKeyDictionary.__init__( self, dict )
     def __delitem__(self, key):
         """Overridden delitem to avoid scanning"""
         try:
-- 
2.43.0


From c9de055aeddb61b3ce003c5f11c28d0865ff6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 06/48] fix: copy.copy of a ProtoNamespace

---
 vrml/protonamespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/protonamespace.py b/vrml/protonamespace.py
index 38cd565..130c1d4 100644
--- a/vrml/protonamespace.py
+++ b/vrml/protonamespace.py
@@ -9,5 +9,5 @@ class ProtoNamespace( dict ):
         raise AttributeError( '%r object has no %r attribute'%( self.__class__.__name__, key))
     def __copy__( self ):
         """Produce a ProtoNamespace copy of self"""
-        return self.__class__( super(ProtoNamespace,self).__copy__())
+        return self.__class__( self)
     
-- 
2.43.0


From 6fe5522aa76748a310deaa508c9a5b4b83bf89d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 07/48] fix: assigning or first reading a node-list field keeps
 its change notifications, addressed to that field

---
 vrml/node.py | 69 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 7fbcc36..a637612 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -377,6 +377,10 @@ class SFNode(_SFNode, field.Field):
     a sub-class of _SFNode and field.Field
     """
 
+    def __set__(self, client, value):
+        """Set the client's value (see fset)"""
+        self.fset(client, value)
+
 
 SFNode.requiredTypes = (Node,)
 
@@ -394,6 +398,10 @@ class WeakSFNode(_SFNode, field.WeakField, field.Field):
 
     fieldType = 'WeakSFNode'
 
+    def __set__(self, client, value):
+        """Set the client's value (see fset)"""
+        self.fset(client, value)
+
 
 class RootScenegraphNode(WeakSFNode):
     fieldType = 'RootScenegraphNode'
@@ -443,13 +451,14 @@ assert Node.rootSceneGraph.name == " root", Node.rootSceneGraph.name
 def _changeSender(nodeRef, field):
     """Utility function to send node-change messages on olist updates"""
 
-    def onOListChange(sender, signal, value):
+    def onOListChange(sender, signal, value, **named):
         client = nodeRef()
-        if client:
+        # the client sends the list events of all of its fields...
+        if client and named.get('field') is field:
             dispatcher.send(
                 ('set', field),
                 client,
-                value=sender,
+                value=field.fget(client),
                 subsignal=signal,
                 subvalue=value,
             )
@@ -483,25 +492,7 @@ class _MFNode(object):
             value = previous
         else:
             value = super(_MFNode, self).fset(client, value, notify)
-            # register for updates to the list...
-            # we just send "changed" events for the field whenever
-            # there's an update to the list... a bit wasteful, as
-            # our clients might want to know about just the changed
-            # values, but for now...
-            value.setSender(client, field=self)
-            cs = _changeSender(weakref.ref(client), self)
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.DEL_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.NEW_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
+            self._watchList(client, value)
         if value:
             clientRoot = Node.rootSceneGraph.fget(client)
             if clientRoot:
@@ -511,6 +502,36 @@ class _MFNode(object):
                         Node.rootSceneGraph.fset(val, clientRoot, notify=0)
         return value
 
+    def _watchList(self, client, value):
+        """Register for updates to the client's list
+
+        we just send "changed" events for the field whenever
+        there's an update to the list... a bit wasteful, as
+        our clients might want to know about just the changed
+        values, but for now...
+        """
+        value.setSender(client, field=self)
+        cs = _changeSender(weakref.ref(client), self)
+        dispatcher.connect(
+            cs,
+            sender=client,
+            signal=olist.OList.DEL_CHILD_EVT,
+            weak=False,  # don't weakref receiver so it will hang around...
+        )
+        dispatcher.connect(
+            cs,
+            sender=client,
+            signal=olist.OList.NEW_CHILD_EVT,
+            weak=False,  # don't weakref receiver so it will hang around...
+        )
+
+    def getDefault(self, client=None):
+        """Get the default value, watching the list if it is client's"""
+        value = super(_MFNode, self).getDefault(client)
+        if client is not None and not isinstance(client, type):
+            self._watchList(client, value)
+        return value
+
     def coerce(self, value):
         """Coerce value to an MFNode list-of-objects"""
         SF = self.__class__.baseSFNode
@@ -545,6 +566,10 @@ class _MFNode(object):
 class MFNode(_MFNode, field.Field):
     """MFNode Field class"""
 
+    def __set__(self, client, value):
+        """Set the client's value (see fset)"""
+        self.fset(client, value)
+
 
 class MFNodeEvt(_MFNode, field.Event):
     """MFNode Event class"""
-- 
2.43.0


From b9d49c1d149fc5aae772f3fcf70def4245712115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 08/48] fix: copying nodes copies the structure below them, and
 prototype instances get their own body

---
 vrml/field.py             |  4 +++
 vrml/node.py              | 58 +++++++++++++++++++++++++++++----------
 vrml/vrml97/scenegraph.py |  5 ++--
 3 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 17824bc..14b9d9f 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -259,6 +259,10 @@ class Field(BaseField):
         """Copy a value for copier"""
         return value
 
+    def copyTo(self, client, newClient, copier=None):
+        """Give newClient a copy of client's value, without notification"""
+        self.fset(newClient, self.copy(client, copier), notify=0)
+
     def typeName(self):
         """Get the typeName of this field"""
         return typeName(self.__class__)
diff --git a/vrml/node.py b/vrml/node.py
index a637612..e7102cf 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -130,13 +130,11 @@ class Node(object):
         previous = copier.use(self)
         if previous is not None:
             return previous
-        dictionary = {}
-        for field in getFields(self):
-            if field.fhas(self):
-                dictionary[field.name] = field.copy(self, copier)
         newNode = type(self).__new__(type(self))
-        newNode.__dict__.update(dictionary)
         copier.use(self, newNode)
+        for field in getFields(self):
+            if field.fhas(self):
+                field.copyTo(self, newNode, copier)
         return newNode
 
     def toString(self, **namedargs):
@@ -198,6 +196,8 @@ class PrototypedNode(object):
         for fieldName, mappings in isMappings:
             sourceField = getField(self, fieldName)
             for destination, destinationField in mappings:
+                # the mappings are for the template, we want our own copy
+                destination = copier.use(destination) or destination
                 r = route.IS(
                     source=self,
                     sourceField=fieldName,
@@ -205,16 +205,17 @@ class PrototypedNode(object):
                     destinationField=destinationField,
                 )
                 sg.routes.append(r)
-            if hasattr(sourceField, 'getDefault'):
-                default = sourceField.getDefault()
-                try:
-                    getField(destination, destinationField).fset(
-                        destination,
-                        default,
-                        notify=0,
-                    )
-                except AttributeError:
-                    pass
+                if hasattr(sourceField, 'getDefault'):
+                    default = sourceField.getDefault()
+                    try:
+                        getField(destination, destinationField).fset(
+                            destination,
+                            default,
+                            # prototyped nodes get IS-value updates
+                            notify=isinstance(destination, PrototypedNode),
+                        )
+                    except AttributeError:
+                        pass
         PrototypedNode.scenegraph.fset(self, sg)
 
     def renderedChildren(self, types=None):
@@ -369,6 +370,16 @@ class _SFNode(object):
         """Convert the given value to a VRML97 representation"""
         return lineariser._linear(value)
 
+    def copyValue(self, value, copier=None):
+        """Copy a value for copier (that is, copy the node)"""
+        if value and isinstance(value, Node):
+            return value.copy(copier)
+        return value
+
+    def copyTo(self, client, newClient, copier=None):
+        """Give newClient a copy of client's value, does not affect roots"""
+        super(_SFNode, self).fset(newClient, self.copy(client, copier), notify=0)
+
 
 class SFNode(_SFNode, field.Field):
     """(Restricted) SFNode type
@@ -403,6 +414,16 @@ class WeakSFNode(_SFNode, field.WeakField, field.Field):
         self.fset(client, value)
 
 
+    def copyValue(self, value, copier=None):
+        """Refer to value's copy iff it is part of what is being copied"""
+        return (copier and value and copier.use(value)) or value
+
+    def copyTo(self, client, newClient, copier=None):
+        """Give newClient a copy of client's (live) reference"""
+        if self.fget(client):
+            super(WeakSFNode, self).copyTo(client, newClient, copier)
+
+
 class RootScenegraphNode(WeakSFNode):
     fieldType = 'RootScenegraphNode'
 
@@ -556,6 +577,13 @@ class _MFNode(object):
         SF = self.__class__.baseSFNode
         return [SF.copyValue(node, copier) for node in value]
 
+    def copyTo(self, client, newClient, copier=None):
+        """Give newClient a copy of client's value, does not affect roots"""
+        value = super(_MFNode, self).fset(
+            newClient, self.copy(client, copier), notify=0
+        )
+        self._watchList(newClient, value)
+
 
 ##class WeakMFNode( MFNode ):
 ##	"""Weak-referencing version of an MFNode field-type"""
diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 83eedf2..9a1b749 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -168,13 +168,14 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
             for key,value in self.protoTypes.items():
                 newPrototypes[key] = protofunctions.copyProto( value, copier )
         else:
-            newPrototypes = self.protoTypes.copy()
+            newPrototypes = protonamespace.ProtoNamespace( self.protoTypes )
+        node = super( SceneGraph, self).copy( copier )
         newDefs = {}
         for key,value in self.defNames.items():
             if (not key) or value is None:
                 continue
             newDefs[key] = value.copy( copier )
-        node = super( SceneGraph, self).copy( copier )
+        node.root = self.root
         node.protoTypes = newPrototypes
         node.defNames = newDefs
         return node
-- 
2.43.0


From c631907c1ce0ba513643649b4d324b630d050095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 09/48] fix: node-path slices are paths, and paths compare with
 anything

---
 vrml/nodepath.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index db38c3f..a223480 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -46,18 +46,28 @@ class NodePath( list ):
         """Return a new path with other as tail"""
         if isinstance( other, node.Node ):
             other = [other]
+        elif isinstance( other, list ):
+            other = list( other )
         return self.__class__( super(NodePath, self).__add__( other))
-    def __getslice__(self, start, stop):
-        """Return a new path with our items from start to stop"""
-        return self.__class__(super (NodePath, self).__getslice__(start, stop))
+    def __getitem__(self, index):
+        """Return the item at index, or a new path with the items of a slice"""
+        result = super (NodePath, self).__getitem__(index)
+        if isinstance( index, slice ):
+            return self.__class__(result)
+        return result
     def __eq__( self, other ):
         """Check whether we are equal to another path"""
+        if not isinstance( other, (list,tuple) ):
+            return NotImplemented
         if len(self) != len(other):
             return 0
         for index in range(len(self)):
             if self [index] is not other [index]:
                 return 0
         return 1
+    def __ne__( self, other ):
+        """Check whether we are not equal to another path"""
+        return not self == other
 
 class WeakNodePath( NodePath, weaklist.WeakList ):
     """Node path that uses weak-references to nodes
-- 
2.43.0


From b030d5f1279985b76ea1a582577caeee9c4894c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 10/48] fix: invalidating a node-path reaches all of its
 descendents

---
 vrml/vrml97/nodepath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index c5db622..f7030ee 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -126,8 +126,8 @@ class _NodePath( object ):
     def invalidate( self ):
         """Set this path to be invalid (and all children paths)"""
         self.broken = True 
-        for desc in self.iterdescendents( ):
-            desc.broken = True 
+        for child in self.iterchildren( ):
+            child.invalidate()
 
 class NodePath( _NodePath, nodepath.NodePath ):
     """Strong-reference version of VRML97 NodePath"""
-- 
2.43.0


From c65d03c295aec5a2e7c395ba750ca28f5284e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 11/48] fix: a scale-only path matrix depends on the center of
 its transforms

---
 vrml/vrml97/nodepath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index f7030ee..d139b36 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -75,6 +75,7 @@ class _NodePath( object ):
                     holder.depend( item, 'scaleOrientation' )
                 if rotate:
                     holder.depend( item, 'rotation' )
+                if scale or rotate:
                     holder.depend( item, 'center' )
             return child_holder.data[inverse]
         matrix = transformmatrix.compressMatrices( 
-- 
2.43.0


From 923be480474143a162a6856543f6f9c81daa5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 12/48] fix: getField by storage name returns the field, not
 its name

---
 vrml/protofunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index fd1fa1b..6f495a6 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -129,11 +129,11 @@ def getField(cls, field):
         # OK, may be a space-prefixed name...
         for fieldObject in getFields(cls):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be an event with space-prefixed name
         for fieldObject in getFields(cls, 1):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be one of the "component" events
         # of a field...
         if field.startswith("set_"):
-- 
2.43.0


From 44186e03a3cef02aa01577371af9278cc2518955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 13/48] fix: transformmatrix.center accepts a translation or
 center

---
 vrml/vrml97/transformmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/transformmatrix.py b/vrml/vrml97/transformmatrix.py
index 2cd2ca3..1cef5a4 100644
--- a/vrml/vrml97/transformmatrix.py
+++ b/vrml/vrml97/transformmatrix.py
@@ -188,6 +188,6 @@ def center(
     T,T1 = transMatrix( translation )
     C,C1 = transMatrix( center )
     for x in (T,C):
-        if x:
+        if x is not None:
             parentMatrix = dot( x, parentMatrix)
     return dot( ORIGINPOINT, parentMatrix )
-- 
2.43.0


From 53817b8e8bd34331f4ff89813ec17a7591647251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 14/48] fix: a replaced cache holder no longer removes its
 replacement

---
 vrml/cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/cache.py b/vrml/cache.py
index 56d04be..cdce1cf 100644
--- a/vrml/cache.py
+++ b/vrml/cache.py
@@ -232,6 +232,9 @@ class CacheHolder( object ):
             if current is None:
                 return 0
             try:
+                if current[ self.key ] is not self:
+                    # we have been replaced...
+                    return 0
                 del current[ self.key ]
                 if not current:
                     try:
-- 
2.43.0


From b4cd49e5882b3448cd2ec333d7501b8db6549a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 15/48] fix: MFVec2d stores doubles, matrices accept sequences,
 arrays accept text

---
 vrml/fieldtypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 5911c56..efbf92d 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -527,7 +527,7 @@ class _SFVec(object):
             value = value.reshape(self.dimension)
         elif isinstance(value, field.SEQUENCE_TYPES):
             value = arrays.asarray([float(x) for x in collapse(value)], self.targetType)
-            value.reshape(self.dimension)
+            value = value.reshape(self.dimension)
         else:
             try:
                 value = arrays.asarray(value, self.targetType)
@@ -590,7 +590,7 @@ class _SFArray(object):
         if isinstance(value, (str, unicode)):
             value = [
                 float(x)
-                for x in value.replace(',', ' ').replace('[', ' ').replace(']').split()
+                for x in value.replace(',', ' ').replace('[', ' ').replace(']', ' ').split()
             ]
         if field.UNPACK_TYPES and isinstance(value, field.UNPACK_TYPES):
             value = list(value)
@@ -1050,7 +1050,7 @@ class MFVec2fEvt(
     fieldType = 'MFVec2f'
 
 
-class MFVec2d(_MFVec2f, field.Field):
+class MFVec2d(_MFVec2d, field.Field):
     """MFVec2d Field class"""
 
 
-- 
2.43.0


From c6d5bdd39536f3e97a2b35e5a3b0aeb7c7c23e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 16/48] fix: arrays are only equal if all of their elements are

---
 vrml/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/arrays.py b/vrml/arrays.py
index 2c765f9..27e2c78 100644
--- a/vrml/arrays.py
+++ b/vrml/arrays.py
@@ -75,7 +75,7 @@ def safeCompare(first, second):
     if isinstance(first, (int, float, str)):
         return first == second
     if isinstance(first, ArrayType) and isinstance(second, ArrayType):
-        return bool(any(first == second))
+        return first.shape == second.shape and bool(all(first == second))
     elif type(first) != type(second):
         return False
     return bool(first == second)
-- 
2.43.0


From 7a81d38e515e63d56f367bd15000fab2ed5cca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 17/48] fix: a number too large for a field is rejected with
 ValueError

---
 accelerate/src/fieldaccel2.pyx | 2 +-
 vrml/field.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/accelerate/src/fieldaccel2.pyx b/accelerate/src/fieldaccel2.pyx
index 9abc0bb..9d5773d 100644
--- a/accelerate/src/fieldaccel2.pyx
+++ b/accelerate/src/fieldaccel2.pyx
@@ -79,7 +79,7 @@ cdef class BaseField( object ):
             value = self.coerce( value )
         except ValueError as x:
             raise ValueError( """Field %s could not accept value %s (%s)"""%( self, value, x))
-        except TypeError as x:
+        except (TypeError, OverflowError) as x:
             raise ValueError( """Field %s could not accept value %s of type %s (%s)"""%( self, value, type(value), x))
         if isinstance( client, type ):
             setattr( client, self.name, value )
diff --git a/vrml/field.py b/vrml/field.py
index 14b9d9f..61d9e67 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -132,7 +132,7 @@ else:
                 raise ValueError(
                     """Field %s could not accept value %s (%s)""" % (self, value, x)
                 )
-            except TypeError as x:
+            except (TypeError, OverflowError) as x:
                 raise ValueError(
                     """Field %s could not accept value %s of type %s (%s)"""
                     % (self, value, type(value), x)
-- 
2.43.0


From 9288e5cc14b358ba52ca646ccd90b23e887faec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 18/48] fix: routes forward an event-port value once and do not
 forward rejected values

---
 vrml/route.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrml/route.py b/vrml/route.py
index 1297887..809fa1d 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -94,11 +94,14 @@ class ROUTE( node.Node ):
                     value = destinationField.fset( destination, value, notify = 0 )
                 except (ValueError, TypeError):
                     traceback.print_exc()
+                    return
             else:
                 try:
-                    value = destinationField.__set__( destination, value )
+                    # we send the (one) notification ourselves, with the event...
+                    destinationField.__set__( destination, value, notify = 0 )
                 except (ValueError, TypeError):
                     traceback.print_exc()
+                    return
             dispatcher.send(
                 signal = ('route',destinationField),
                 sender = destination,
-- 
2.43.0


From 4a3794452950a897e68e9a9fc30bc8048744bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 19/48] fix: ProtoNamespace.copy returns a ProtoNamespace

---
 vrml/protonamespace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrml/protonamespace.py b/vrml/protonamespace.py
index 130c1d4..d190ce1 100644
--- a/vrml/protonamespace.py
+++ b/vrml/protonamespace.py
@@ -10,4 +10,5 @@ class ProtoNamespace( dict ):
     def __copy__( self ):
         """Produce a ProtoNamespace copy of self"""
         return self.__class__( self)
+    copy = __copy__
     
-- 
2.43.0


From f3e98e64f771dbf6e5180f8fddeed92c272c0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 20/48] fix: only node fields are written as nodes, so string
 lists are written as strings

---
 vrml/vrml97/linearise.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index daeac81..e5b6578 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -469,29 +469,27 @@ class Lineariser:
         Nodes, ProtoTypes and ExternProtos (well, not according to the
         parsers, but someone might attempt it).
         '''
-        try:
-            if field is node.RootScenegraphNode:
-                return
-            pName = protoName(anyobj)
-            handler = self.typecache.get(pName)
+        if field is node.RootScenegraphNode:
+            return
+        if field.nodes:
+            handler = self.typecache.get(protoName(anyobj))
             if handler:
                 return handler(anyobj)
             if isinstance(anyobj, list):
                 return self._mfnode(anyobj)
             return self._Node(anyobj)
-        except AttributeError:
-            if hasattr(field, 'vrmlstr'):
-                result = getattr(field, 'vrmlstr')(anyobj, self)
-                if result is not None:
-                    self.buffer.write(result)
-            elif hasattr(self, field.typeName()):
-                result = getattr(self, field.typeName())(anyobj)
-                if result is not None:
-                    self.buffer.write(result)
-            else:
-                raise TypeError(
-                    '''Unknown fieldType %s, cannot convert to string''' % field
-                )
+        elif hasattr(field, 'vrmlstr'):
+            result = getattr(field, 'vrmlstr')(anyobj, self)
+            if result is not None:
+                self.buffer.write(result)
+        elif hasattr(self, field.typeName()):
+            result = getattr(self, field.typeName())(anyobj)
+            if result is not None:
+                self.buffer.write(result)
+        else:
+            raise TypeError(
+                '''Unknown fieldType %s, cannot convert to string''' % field
+            )
 
     ### Utility functions...
     def _dedent(self):
-- 
2.43.0


From e7f03c0852c60f69775ca82b2c7c5d7cb1b28e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 21/48] fix: a lineariser does not change the shared format
 definitions

---
 vrml/vrml97/linearise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index e5b6578..b00bc42 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -56,9 +56,9 @@ class Lineariser:
     def __init__(self, linvalues=None, alreadydone=None, *args, **namedargs):
         if linvalues is None:
             linvalues = defaults
-        if namedargs:
-            linvalues = linvalues.copy()
-            linvalues.update(namedargs)
+        # always our own copy, as we update the current indentation in it
+        linvalues = linvalues.copy()
+        linvalues.update(namedargs)
         self.linvalues = linvalues
         if alreadydone is None:
             self.alreadydone = {}
-- 
2.43.0


From 5dbfffdf2fc854be76e372b266127f446dd0c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 22/48] fix: prototypes are written with their own declared
 fields, and EXTERNPROTO fields without defaults

---
 vrml/field.py            |  7 ++++++-
 vrml/vrml97/linearise.py | 15 +++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 61d9e67..6e72a2c 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -288,12 +288,15 @@ class Field(BaseField):
         """Convert the given value to a VRML97 representation"""
         return ""
 
-    def fieldVrmlstr(self, lineariser):
+    def fieldVrmlstr(self, lineariser, requireDefault=1):
         """Write the field's definition to the lineariser
 
         Basically this gives you a VRML97 fragment
         which can be used for creating a PROTO which
         will have the equivalent of this field available.
+
+        requireDefault -- whether the definition includes the default
+            value (it does not for EXTERNPROTOs)
         """
         if self.exposure:
             exposed = "exposedField"
@@ -307,6 +310,8 @@ class Field(BaseField):
                 self.name,
             )
         )
+        if not requireDefault:
+            return
         result = self.vrmlstr(
             # coerce is necessary because the
             # default values are often not in
diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index b00bc42..16f94ea 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -203,11 +203,10 @@ class Lineariser:
         buffer = self.buffer = StringIO()  # local buffer only for this particular proto
 
         # write header (PROTO x [, EXTERNPROTO x [ )
-        # TODO: the externalURL descriptor no longer works, likely because the proto node
-        # is now a type, so it is trying to access an instance variable
+        # a prototype without an external URL just has the field definition
         externalURL = clientNode.externalURL
         if hasattr(externalURL, '__get__'):
-            externalURL = clientNode.externalURL.__get__(clientNode)
+            externalURL = None
         if externalURL:
             buffer.write('EXTERNPROTO %s [' % (clientName,))
         else:
@@ -215,7 +214,7 @@ class Lineariser:
         # write the declaration...
         self._indent()
         self._eventDict(clientNode)
-        self._fieldDict(clientNode, requireDefault=1)  # clientNode.__gi__ == "PROTO")
+        self._fieldDict(clientNode, requireDefault=not externalURL)
         self._dedent()
         linvalues = self.linvalues
         if externalURL:
@@ -412,13 +411,17 @@ class Lineariser:
             field
             for field in getFields(clientNode)
             if (
-                (field.name not in skipFields) and field.name and (field.name[0] != ' ')
+                (field.name not in skipFields)
+                and field.name
+                and (field.name[0] != ' ')
+                # part of every node, not part of the declared interface
+                and field is not node.Node.externalURL
             )
         ]
         fields.sort(key=namekey)
         for field in fields:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
-            field.fieldVrmlstr(self)
+            field.fieldVrmlstr(self, requireDefault=requireDefault)
 
     def _fieldref(self, clientNode, *args, **namedargs):
         self.buffer.write('IS %s' % clientNode.declaredName)
-- 
2.43.0


From 9033f8b810ebc537943eb159d911071b619ca57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 23/48] fix: all IS mappings and the current values of Script
 fields are written

---
 vrml/vrml97/linearise.py | 78 ++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 16f94ea..e0c007c 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -326,14 +326,16 @@ class Lineariser:
         self._indent()
         linvalues = self.linvalues
 
-        self._eventDict(getPrototype(clientNode))
+        isMaps = self._isMaps(clientNode)
+        self._eventDict(clientNode, isMaps)
         self._fieldDict(
-            getPrototype(clientNode),
+            clientNode,
             requireDefault=1,
             skipFields=(' DEF', 'url', 'directOutput', 'mustEvaluate'),
+            isMaps=isMaps,
         )
         self._dedent()
-        self._attrDict(clientNode)
+        self._attrDict(clientNode, isMaps)
         PROTO = protoName(clientNode)
         buffer.write(
             '%(full_element_separator)s%(curindent)s}#%%s' % linvalues % (DEF or PROTO)
@@ -342,19 +344,28 @@ class Lineariser:
         self.alreadydone[id(clientNode)] = startind, buffer.tell()
         return None
 
-    def _attrDict(self, object):
-        """Write out the attribute dictionary for an object"""
-        buffer = self.buffer
-        linvalues = self.linvalues
+    def _isMaps(self, object):
+        """Get the object's IS mappings in the current prototype
+
+        Returns a fieldName:[interface name,...] mapping
+        """
+        isMaps = {}
         if self.curproto:
-            set = node.ismaps(self.curproto[-1])
-            isMaps = {}
-            for fieldName, fieldList in set.items():
+            for name, fieldList in node.ismaps(self.curproto[-1]).items():
                 for n, field in fieldList:
                     if n is object:
-                        isMaps[field] = fieldName
-        else:
-            isMaps = {}
+                        isMaps.setdefault(field, []).append(name)
+        return isMaps
+
+    def _attrDict(self, object, isMaps=None):
+        """Write out the attribute dictionary for an object
+
+        isMaps -- those of the object's IS mappings which are not yet written
+        """
+        buffer = self.buffer
+        linvalues = self.linvalues
+        if isMaps is None:
+            isMaps = self._isMaps(object)
         if protoName(object) == "Script":
             items = [
                 field
@@ -373,12 +384,8 @@ class Lineariser:
             val = field.fget(object)
             default = field.getDefault()
             if field.name in isMaps:
-                buffer.write(
-                    '%(full_element_separator)s%(curindent)s%(indent)s%%s IS %%s\t'
-                    % linvalues
-                    % (field.name, isMaps.get(field.name))
-                )
-            elif (
+                continue
+            if (
                 default is not None and not arrays.safeCompare(default, val)
             ) or default is None:
                 buffer.write(
@@ -387,13 +394,23 @@ class Lineariser:
                     % (field.name,)
                 )
                 self._sffield(val, field)
+        # fields, events and the set_X and X_changed events of fields
+        for fieldName in sorted(isMaps):
+            for name in isMaps[fieldName]:
+                buffer.write(
+                    '%(full_element_separator)s%(curindent)s%(indent)s%%s IS %%s\t'
+                    % linvalues
+                    % (fieldName, name)
+                )
 
-    def _eventDict(self, clientNode):
+    def _eventDict(self, clientNode, isMaps=None):
         '''
         Event Dictionaries have two possible sources of information,
         the eventDict and the isNames dictionary.  The first provides
         name, type, out, the second provides any IS bindings which
         need to be created.
+
+        isMaps -- (for Scripts) IS mappings, those written are removed
         '''
         # need to get the IS/USE for the field if available
         buffer = self.buffer
@@ -403,9 +420,16 @@ class Lineariser:
         for field in [f for f in fields if (f.name and f.name[0] != ' ')]:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
             field.eventVrmlstr(self)
-            # XXX do IS-mapping here!
+            if isMaps and isMaps.get(field.name):
+                buffer.write(' IS %s' % (isMaps[field.name].pop(0),))
+
+    def _fieldDict(
+        self, clientNode, requireDefault=1, skipFields=('DEF',), isMaps=None
+    ):
+        '''Write the field declarations of a prototype or Script node
 
-    def _fieldDict(self, clientNode, requireDefault=1, skipFields=('DEF',)):
+        isMaps -- (for Scripts) IS mappings, those written are removed
+        '''
         buffer = self.buffer
         fields = [
             field
@@ -421,7 +445,15 @@ class Lineariser:
         fields.sort(key=namekey)
         for field in fields:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
-            field.fieldVrmlstr(self, requireDefault=requireDefault)
+            if isMaps and isMaps.get(field.name):
+                field.fieldVrmlstr(self, requireDefault=0)
+                buffer.write('IS %s' % (isMaps[field.name].pop(0),))
+            elif isinstance(clientNode, type):
+                field.fieldVrmlstr(self, requireDefault=requireDefault)
+            else:
+                # a Script node declares its fields with their current values
+                field.fieldVrmlstr(self, requireDefault=0)
+                self._sffield(field.fget(clientNode), field)
 
     def _fieldref(self, clientNode, *args, **namedargs):
         self.buffer.write('IS %s' % clientNode.declaredName)
-- 
2.43.0


From 262a0a428a5facb2bb7cf6c97150dcfa4ef1b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 24/48] fix: unchanged default node lists of prototypes are not
 written as values

---
 vrml/vrml97/linearise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index e0c007c..f01c7b6 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -383,6 +383,9 @@ class Lineariser:
             # following slows us down, but prevents the chaff from showing up...
             val = field.fget(object)
             default = field.getDefault()
+            if field.nodes:
+                # the declared nodes are already written with the declaration
+                default = field.coerce(default)
             if field.name in isMaps:
                 continue
             if (
-- 
2.43.0


From 040aa6eef469a015a9d8412b0d56457bf8858c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 25/48] fix: names starting with a keyword are parsed as names

---
 vrml/vrml97/parser.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 7538e50..cda71ee 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -19,44 +19,46 @@ from simpleparse.common import chartypes
 grammar = r'''
 header         := -[\n]*
 vrmlFile       := header, vrmlScene, !, EOF
-rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',ts,USE,ts)/Script/Node),ts
+rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',?kwend,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
-Proto          := 'PROTO',ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
+Proto          := 'PROTO',?kwend,ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
 fieldDecl	   := fieldExposure,ts,!,dataType,ts,name,ts,Field,ts
-fieldExposure  := 'field'/'exposedField'
+fieldExposure  := ('field'/'exposedField'),?kwend
 dataType       := ('SF'/'MF')?,name
 eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
-eventDirection := 'eventIn'/'eventOut'
-ExternProto    := 'EXTERNPROTO',ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
+eventDirection := ('eventIn'/'eventOut'),?kwend
+ExternProto    := 'EXTERNPROTO',?kwend,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
 ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
 
-ROUTE          := 'ROUTE',ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
+ROUTE          := 'ROUTE',?kwend,ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
 
-Node           := ('DEF',ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
+Node           := ('DEF',?kwend,ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
 
-Script         := ('DEF',ts,!,name,ts)?,'Script',ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
-ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS', ts,!, IS,ts)?
-ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS', ts,!,IS,ts)/Field),ts
+Script         := ('DEF',?kwend,ts,!,name,ts)?,'Script',?kwend,ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
+ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS',?kwend, ts,!, IS,ts)?
+ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS',?kwend, ts,!,IS,ts)/Field),ts
 
-SFNull         := 'NULL', ts
+SFNull         := 'NULL',?kwend, ts
 
 # should really have an optimised way of declaring a different reporting name for the same production...
 USE            := name
 IS             := name
 nodegi         := name 
-Attr           := name, ts, (('IS', ts,IS,ts)/Field), ts
-Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',ts,USE,ts)/Script/Node),ts)+
+Attr           := name, ts, (('IS',?kwend, ts,IS,ts)/Field), ts
+Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',?kwend,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',?kwend,ts,USE,ts)/Script/Node),ts)+
 
 vector         := '[',ts,((vector/SFNumber),ts)*,']'
 name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
-SFBool         := 'TRUE'/'FALSE'
+SFBool         := ('TRUE'/'FALSE'),?kwend
 SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
+# keywords end where a name would end (e.g. DEFORM is a name, not a DEF)
+<kwend>        := [][{}\000-\020"'#,.\\ ]
 <ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n')+ )*
 '''
 
-- 
2.43.0


From 001f9f33f4d17d08149f5db494e6c221ff54e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 26/48] fix: a value of the wrong kind for its field is an
 error, not a silent default

---
 vrml/vrml97/parseprocessor.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 670236e..3a8f8e6 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -346,21 +346,31 @@ class ParseProcessor(DispatchProcessor):
     def Field(self, table, buffer):
         '''A field value (of any type)'''
         (tag, start, stop, sublist) = table
-        if sublist and sublist[0][0] in ('USE', 'Script', 'Node', 'SFNull'):
-            if self.fieldTypeStack[-1] == 'SFNode':
-                return dispatch(self, sublist[0], buffer)
-            else:
+        fieldType = self.fieldTypeStack[-1]
+        if fieldType in ('SFNode', 'MFNode'):
+            self._checkTags(sublist, ('USE', 'Script', 'Node', 'SFNull'))
+            if fieldType == 'MFNode':
                 return dispatchList(self, sublist, buffer)
-        elif self.fieldTypeStack[-1] == 'MFNode':
-            return []
+            (tup,) = sublist
+            return dispatch(self, tup, buffer)
         else:
             # is a simple data type...
-            function = getattr(self, self.fieldTypeStack[-1])
+            function = getattr(self, fieldType)
             return function(sublist, buffer)
 
+    def _checkTags(self, sublist, tags):
+        """Raise ValueError if any item is not of the kind the field needs"""
+        for tag, start, stop, children in sublist:
+            if tag not in tags:
+                raise ValueError(
+                    """%s is not a value for %s"""
+                    % (tag, self.fieldTypeStack[-1:])
+                )
+
     def SFBool(self, table, buffer):
         '''Boolean, in Python tradition is either 0 or 1'''
         (tup,) = table
+        self._checkTags(table, ('SFBool',))
         return getString(tup, buffer) == 'TRUE'
 
     def SFFloat(self, table, buffer):
@@ -415,6 +425,7 @@ class ParseProcessor(DispatchProcessor):
 
     def MFString(self, tuples, buffer):
         bigresult = []
+        self._checkTags(tuples, ('SFString',))
         for tag, start, stop, sublist in tuples:
             result = []
             for element in sublist:
@@ -430,6 +441,7 @@ class ParseProcessor(DispatchProcessor):
     def SFString(self, table, buffer):
         '''Return the (escaped) string as a simple Python string'''
         ((tag, start, stop, sublist),) = table
+        self._checkTags(table, ('SFString',))
         result = []
         for element in sublist:
             if element[0] == 'CHARNODBLQUOTE':
-- 
2.43.0


From 954b0dd049294dd519b4b2c203c94e4b601bbaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 27/48] fix: an unacceptable default in a field declaration is
 a parse error

---
 vrml/vrml97/parseprocessor.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 3a8f8e6..93b4f4a 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -234,15 +234,15 @@ class ParseProcessor(DispatchProcessor):
         self.fieldTypeStack.append(datatype)
         try:
             value = dispatch(self, value, buffer)
-            addField(
-                self.prototypeStack[-1],
-                field.newField(
-                    getString(name, buffer),
-                    datatype,
-                    getString(exposure, buffer) == 'exposedField',
-                    value,
-                ),
+            fieldObject = field.newField(
+                getString(name, buffer),
+                datatype,
+                getString(exposure, buffer) == 'exposedField',
+                value,
             )
+            # an unacceptable default is an error here, not on instantiation
+            fieldObject.coerce(value)
+            addField(self.prototypeStack[-1], fieldObject)
         finally:
             self.fieldTypeStack.pop()
 
@@ -306,6 +306,8 @@ class ParseProcessor(DispatchProcessor):
                     getString(exposure, buffer) == 'exposedField',
                     value,
                 )
+                # an unacceptable value is an error here, not on first access
+                fieldObject.coerce(value)
             return (fieldObject, mapName)
         finally:
             self.fieldTypeStack.pop()
-- 
2.43.0


From b0f6f16ed81a2899028202ccdcbd683d87618a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 28/48] fix: decimal integers may have leading zeros

---
 vrml/vrml97/parseprocessor.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 93b4f4a..be44f18 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -19,6 +19,13 @@ def getString(*args, **named):
     return as_str(base)
 
 
+def _int(text):
+    """Integer value of decimal or hexadecimal text (0xff, 10 or 007)"""
+    if 'x' in text or 'X' in text:
+        return long(text, 16)
+    return long(text, 10)
+
+
 class ParseProcessor(DispatchProcessor):
     """Builds in-memory node-graph from VRML97 parse-tree"""
 
@@ -383,7 +390,7 @@ class ParseProcessor(DispatchProcessor):
 
     def SFInt32(self, table, buffer):
         (tup,) = table
-        return int(getString(tup, buffer), 0)
+        return _int(getString(tup, buffer))
 
     def SFVec3f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
@@ -412,13 +419,13 @@ class ParseProcessor(DispatchProcessor):
         # localisation
         if not tuples:
             return []
-        return [int(buffer[start:stop], 0) for (tag, start, stop, children) in tuples]
+        return [_int(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     SFImage = MFInt32
 
     def MFUInt32(self, tuples, buffer):
         # localisation
-        return [long(buffer[start:stop], 0) for (tag, start, stop, children) in tuples]
+        return [_int(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     def MFFloat(self, tuples, buffer):
         return [float(buffer[start:stop]) for (tag, start, stop, children) in tuples]
-- 
2.43.0


From a912faffe265c463133b687226aeff6940938f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 29/48] fix: files without nodes, and comments at the end of a
 file, are parsed

---
 vrml/vrml97/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index cda71ee..5c06809 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -18,7 +18,7 @@ from simpleparse.common import chartypes
 #print file
 grammar = r'''
 header         := -[\n]*
-vrmlFile       := header, vrmlScene, !, EOF
+vrmlFile       := header, ts, vrmlScene, ts, !, EOF
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',?kwend,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
@@ -59,7 +59,7 @@ SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
 # keywords end where a name would end (e.g. DEFORM is a name, not a DEF)
 <kwend>        := [][{}\000-\020"'#,.\\ ]
-<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n')+ )*
+<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*)+ )*
 '''
 
 class VRMLParser( Parser ):
-- 
2.43.0


From 9ba1ffc95dc3ab2bf60cdd1464d70548f6bce99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 30/48] fix: watching a field with addRoute does not store a
 tuple as a route

---
 vrml/vrml97/scenegraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 9a1b749..283d612 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -150,6 +150,8 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
                 field = protofunctions.getField( source, sourceField )
                 field.watch( source, target, ('set',field) )
                 field.watch( source, target, ('del',field) )
+                # not a ROUTE, so nothing to store in the scenegraph
+                return route
         self.routes.append( route )
         return route
 ##	def addIsMap( self, name, node, field ):
-- 
2.43.0


From 624c3e9bf26999352ccb4ab0d0b705651e27f766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 31/48] fix: rotations about a zero vector are the same without
 acceleration

---
 vrml/vrml97/_transformmatrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrml/vrml97/_transformmatrix.py b/vrml/vrml97/_transformmatrix.py
index f9de42a..8c50fc9 100644
--- a/vrml/vrml97/_transformmatrix.py
+++ b/vrml/vrml97/_transformmatrix.py
@@ -22,6 +22,8 @@ def rotMatrix( source=None ):
     else:
         (x,y,z, a) = source
     if a % TWOPI:
+        if x == y == z == 0.0:
+            y = 1.0
         # normalize the rotation vector!
         squared = x*x + y*y + z*z
         if squared != 1.0:
-- 
2.43.0


From c3486aef92a4fbcbe1d2d27d8b41ed1210dc5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 32/48] fix: a field overridden by an event (or the reverse) is
 not listed any more

---
 vrml/protofunctions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index 6f495a6..3cfe800 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -167,12 +167,13 @@ def getFields(cls, events=0):
                 [
                     (key, value)
                     for key, value in mro[-1].__dict__.items()
-                    if isinstance(value, wanted)
+                    # a field may be overridden by an event, and vice versa
+                    if key in items or isinstance(value, (field.Field, field.Event))
                 ]
             )
         )
         mro = mro[:-1]
-    return list(items.values())
+    return [item for item in items.values() if isinstance(item, wanted)]
 
 
 ##def clonePROTO( cls ):
-- 
2.43.0


From eb68e672fccfdb3f65160d8a3616bba05b417537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 33/48] fix: reading a weak node field gives the node, not a
 reference to it

---
 vrml/field.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrml/field.py b/vrml/field.py
index 6e72a2c..51b9c8b 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -350,6 +350,12 @@ class Field(BaseField):
 class WeakField(object):
     """A Mix-in for fields which stores weak-references to values"""
 
+    def __get__(self, client=None, cls=None):
+        """Get the client's value (the referenced object, not the reference)"""
+        if client is None:
+            return self
+        return self.fget(client)
+
     def fset(self, client, value, notify=1):
         """Set the client's value for this property
 
-- 
2.43.0


From f34afddb1081a8f05788b3e0d036457bddc681b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 34/48] fix: unsetting a weak node field which is not set is
 not an error

---
 vrml/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/field.py b/vrml/field.py
index 51b9c8b..58d6123 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -364,7 +364,7 @@ class WeakField(object):
         if isinstance(value, weakref.ReferenceType):
             value = value()
         if not value:
-            if not isinstance(client, type):
+            if not isinstance(client, type) and self.fhas(client):
                 self.fdel(client, notify=notify)
             return None
         value = weakref.ref(value)
-- 
2.43.0


From 5f7a5e75183fb98bfe4af71dfc4aa2e8756575a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 35/48] fix: CSS colour names which were wrong or missing in
 the table

---
 vrml/csscolors.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index 7e424c4..be27b5c 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -22,10 +22,14 @@ def toFloat( value, shift=0 ):
 cssColors = {
     'black' : (0.0,0.0,0.0),
     'dimgray' : (0.4118,0.4118,0.4118),
+    'dimgrey' : (0.4118,0.4118,0.4118),
     'gray' : (0.502,0.502,0.502),
+    'grey' : (0.502,0.502,0.502),
     'darkgray' : (0.6627,0.6627,0.6627),
+    'darkgrey' : (0.6627,0.6627,0.6627),
     'silver' : (0.7529,0.7529,0.7529),
     'lightgrey' : (0.8275,0.8275,0.8275),
+    'lightgray' : (0.8275,0.8275,0.8275),
     'gainsboro' : (0.8627,0.8627,0.8627),
     'whitesmoke' : (0.9608,0.9608,0.9608),
     'white' : (1.0,1.0,1.0),
@@ -77,10 +81,10 @@ cssColors = {
     'beige' : (0.9608,0.9608,0.8627),
     'lightyellow' : (1.0,1.0,0.8784),
     'lightgoldenrodyellow' : (0.9804,0.9804,0.8235),
-    'darkgoldenrod' : (0.7216,0.7137,0.0431),
+    'darkgoldenrod' : (0.7216,0.5255,0.0431),
     'olive' : (0.502,0.502,0.0),
     'yellow' : (1.0,1.0,0.0),
-    'yellowgreen' : (0.6627,0.8039,0.1961),
+    'yellowgreen' : (0.6039,0.8039,0.1961),
     'olivedrab' : (0.4196,0.5569,0.1373),
     'darkolivegreen' : (0.3333,0.4196,0.1843),
     'greenyellow' : (0.6784,1.0,0.1843),
@@ -109,6 +113,7 @@ cssColors = {
     'lightcyan' : (0.8784,1.0,1.0),
     'paleturquoise' : (0.6863,0.9333,0.9333),
     'darkslategray' : (0.1843,0.3098,0.3098),
+    'darkslategrey' : (0.1843,0.3098,0.3098),
     'teal' : (0.0,0.502,0.502),
     'darkcyan' : (0.0,0.5451,0.5451),
     'aqua' : (0.0,1.0,1.0),
@@ -118,16 +123,18 @@ cssColors = {
     'powderblue' : (0.6902,0.8784,0.902),
     'lightblue' : (0.6784,0.8471,0.902),
     'deepskyblue' : (0.0,0.749,1.0),
-    'skyblue' : (0.5294,0.8078,0.9294),
+    'skyblue' : (0.5294,0.8078,0.9216),
     'lightskyblue' : (0.5294,0.8078,0.9804),
     'steelblue' : (0.2745,0.5098,0.7059),
     'aliceblue' : (0.9412,0.9725,1.0),
     'slategray' : (0.4392,0.502,0.5647),
+    'slategrey' : (0.4392,0.502,0.5647),
     'lightslategray' : (0.4667,0.5333,0.6),
+    'lightslategrey' : (0.4667,0.5333,0.6),
     'dodgerblue' : (0.1176,0.5647,1.0),
     'lightsteelblue' : (0.6902,0.7686,0.8706),
     'cornflowerblue' : (0.3922,0.5843,0.9294),
-    'royalblue' : (0.0157,0.0863,0.5647),
+    'royalblue' : (0.2549,0.4118,0.8824),
     'ghostwhite' : (0.9725,0.9725,1.0),
     'lavender' : (0.902,0.902,0.9804),
     'midnightblue' : (0.098,0.098,0.4392),
@@ -157,7 +164,7 @@ cssColors = {
     'hotpink' : (1.0,0.4118,0.7059),
     'lavenderblush' : (1.0,0.9412,0.9608),
     'palevioletred' : (0.8588,0.4392,0.5765),
-    'pink' : (1.0,0.7529,0.8039),
+    'pink' : (1.0,0.7529,0.7961),
     'crimson' : (0.8627,0.0784,0.2353),
     'lightpink' : (1.0,0.7137,0.7569),
 }
-- 
2.43.0


From d691cb40d92f3dee473ea18dcc2f08e46a724864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 36/48] fix: a vector field filled from one number

---
 vrml/fieldtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index efbf92d..988a2f2 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -519,8 +519,9 @@ class _SFVec(object):
         if isinstance(value, (str, unicode)):
             value = [float(x) for x in value.replace(',', ' ').split()]
         if isinstance(value, (int, long, float)):
+            number = float(value)
             value = arrays.zeros(self.dimension, self.targetType)
-            value[:] = float(value)
+            value[:] = number
         elif isinstance(value, arrays.ArrayType):
             if arrays.typeCode(value) not in self.acceptedTypes:
                 value = value.astype(self.targetType)
-- 
2.43.0


From ed3fd3106314b99885c2df384ebd29f731d42022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 37/48] fix: an MFColor from a map or zip which needs the
 string coercion was stored empty

---
 vrml/fieldtypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 988a2f2..977bd7a 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -852,6 +852,9 @@ class _MFColor(_Color, _MFVec3f):
 
     def coerce(self, value):
         """Adds string coercion for color data types"""
+        if field.UNPACK_TYPES and isinstance(value, field.UNPACK_TYPES):
+            # can only be iterated once, and we may do so twice
+            value = list(value)
         try:
             return super(_MFColor, self).coerce(value)
         except (ValueError, TypeError) as err:
-- 
2.43.0


From 7cf7cb35424b5da5eea02592ea038df19f4dbbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 38/48] fix: weak references between copied nodes refer to the
 copies whatever the order

---
 vrml/copier.py | 13 ++++++++++++-
 vrml/node.py   |  9 ++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/vrml/copier.py b/vrml/copier.py
index 4b63532..e9f637c 100644
--- a/vrml/copier.py
+++ b/vrml/copier.py
@@ -23,5 +23,16 @@ class Copier( object ):
             self.useNodes = {}
         if newNode is not None:
             self.useNodes[ clientNode ] = newNode
+            for callback in getattr( self, 'waiting', {}).pop( clientNode, ()):
+                callback( newNode )
         else:
-            return self.useNodes.get( clientNode )
\ No newline at end of file
+            return self.useNodes.get( clientNode )
+    def whenUsed( self, clientNode, callback ):
+        """Call callback( newNode ) if/when clientNode is copied in this pass"""
+        newNode = self.use( clientNode )
+        if newNode is not None:
+            callback( newNode )
+        else:
+            if not hasattr( self, 'waiting'):
+                self.waiting = {}
+            self.waiting.setdefault( clientNode, []).append( callback )
diff --git a/vrml/node.py b/vrml/node.py
index e7102cf..d28f60c 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -420,8 +420,15 @@ class WeakSFNode(_SFNode, field.WeakField, field.Field):
 
     def copyTo(self, client, newClient, copier=None):
         """Give newClient a copy of client's (live) reference"""
-        if self.fget(client):
+        value = self.fget(client)
+        if value:
             super(WeakSFNode, self).copyTo(client, newClient, copier)
+            if copier:
+                # value may only be copied later
+                copier.whenUsed(
+                    value,
+                    lambda new: super(_SFNode, self).fset(newClient, new, notify=0),
+                )
 
 
 class RootScenegraphNode(WeakSFNode):
-- 
2.43.0


From d69b6094b7fc30ddcc213dacfcca8f9c8d70e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 39/48] fix: a carriage return ends the header and comments

---
 vrml/vrml97/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 5c06809..640294f 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -17,7 +17,7 @@ from simpleparse.common import chartypes
 
 #print file
 grammar = r'''
-header         := -[\n]*
+header         := -[\012\015]*
 vrmlFile       := header, ts, vrmlScene, ts, !, EOF
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',?kwend,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
@@ -59,7 +59,7 @@ SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
 # keywords end where a name would end (e.g. DEFORM is a name, not a DEF)
 <kwend>        := [][{}\000-\020"'#,.\\ ]
-<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*)+ )*
+<ts>           :=  ( [ \011-\015,]+ / ('#',-[\012\015]*)+ )*
 '''
 
 class VRMLParser( Parser ):
-- 
2.43.0


From fc7a93dcb919c8b257cd40eb11066f7b787f23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 40/48] fix: reading a file sent the initial values of fields
 along routes already read

---
 vrml/vrml97/parseprocessor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index be44f18..9befe0a 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -59,6 +59,7 @@ class ParseProcessor(DispatchProcessor):
         self.basePrototypes = basePrototypes
         self.baseURI = baseURI
         self.sceneGraphStack = []
+        self.routeStack = []
         self.prototypeStack = []
         self.nodeStack = []
         self.fieldTypeStack = []
@@ -94,8 +95,12 @@ class ParseProcessor(DispatchProcessor):
                 baseURI=self.baseURI,
             )
         )
+        self.routeStack.append([])
         dispatchList(self, children, buffer)
         node = self.sceneGraphStack.pop()
+        # initial values are not events, so nothing is routed until all are set
+        for route in self.routeStack.pop():
+            node.addRoute(self.basePrototypes.get('ROUTE')(**route))
         return node
 
     ### The two prototype sub-types
@@ -225,8 +230,8 @@ class ParseProcessor(DispatchProcessor):
                         lines(end=start, buffer=buffer),
                     )
                 )
-        self.sceneGraphStack[-1].addRoute(
-            self.basePrototypes.get('ROUTE')(
+        self.routeStack[-1].append(
+            dict(
                 source=sn,
                 sourceField=sf,
                 destination=dn,
-- 
2.43.0


From 3968b9ec2151398ec88ad42804d2a6456e3899fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 41/48] fix: an SFImage was written in brackets, as if it were
 an MF value

---
 vrml/fieldtypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 977bd7a..ced4220 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -438,6 +438,10 @@ class _SFImage(_MFInt32):
     arrayDataType = 'I'
     acceptedTypes = ('I', UINT_TYPE)
 
+    def vrmlstr(self, value, lineariser=None):
+        """Convert the given value to a VRML97 representation (without brackets)"""
+        return MFSimple_vrmlstr(value, lineariser)[2:-2] or '0 0 0'
+
 
 class _MFFloat(object):
     """MFFloat field/event type base-class
-- 
2.43.0


From faafd930037fcb137069c5afb61e89bc985b624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 42/48] fix: standard nodes whose interface is not that of
 ISO/IEC 14772-1:1997

---
 vrml/vrml97/basenodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index ce401cb..d4aa8e5 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -166,7 +166,7 @@ class ElevationGrid( nodetypes.Geometry, node.Node ):
     PROTO = 'ElevationGrid'
     #Fields
     zDimension = field.newField( 'zDimension', 'SFInt32', 0, 0)
-    xSpacing = field.newField( 'xSpacing', 'SFFloat', 0, 0.0)
+    xSpacing = field.newField( 'xSpacing', 'SFFloat', 0, 1.0)
     creaseAngle = field.newField( 'creaseAngle', 'SFFloat', 0, 0.0)
     normal = field.newField( 'normal', 'SFNode', 1, node.NULL)
     solid = field.newField( 'solid', 'SFBool', 0, 1)
@@ -176,7 +176,7 @@ class ElevationGrid( nodetypes.Geometry, node.Node ):
     color = field.newField( 'color', 'SFNode', 1, node.NULL)
     colorPerVertex = field.newField( 'colorPerVertex', 'SFBool', 0, 1)
     xDimension = field.newField( 'xDimension', 'SFInt32', 0, 0)
-    zSpacing = field.newField( 'zSpacing', 'SFFloat', 0, 0.0)
+    zSpacing = field.newField( 'zSpacing', 'SFFloat', 0, 1.0)
     normalPerVertex = field.newField( 'normalPerVertex', 'SFBool', 0, 1)
     #Events
     set_height = field.newEvent( 'set_height', 'MFFloat', 0)
@@ -321,7 +321,7 @@ class MovieTexture( nodetypes.Auditory, nodetypes.Texture, nodetypes.TimeDepende
     repeatT = field.newField( 'repeatT', 'SFBool', 0, 1)
     loop = field.newField( 'loop', 'SFBool', 1, 0)
     #Events
-    duration_changed = field.newEvent( 'duration_changed', 'SFFloat', 1)
+    duration_changed = field.newEvent( 'duration_changed', 'SFTime', 1)
     isActive = field.newEvent( 'isActive', 'SFBool', 1)
 
 class NavigationInfo( nodetypes.Children, nodetypes.NavigationInfo, node.Node ):
@@ -330,7 +330,7 @@ class NavigationInfo( nodetypes.Children, nodetypes.NavigationInfo, node.Node ):
     speed = field.newField( 'speed', 'SFFloat', 1, 1.0)
     avatarSize = field.newField( 'avatarSize', 'MFFloat', 1, [0.25, 1.6000000000000001, 0.75])
     headlight = field.newField( 'headlight', 'SFBool', 1, 1)
-    type = field.newField( 'type', 'MFString', 1, ['WALK'])
+    type = field.newField( 'type', 'MFString', 1, ['WALK','ANY'])
     visibilityLimit = field.newField( 'visibilityLimit', 'SFFloat', 1, 0.0)
     #Events
     set_bind = field.newEvent( 'set_bind', 'SFBool', 0)
-- 
2.43.0


From bf694556c3930cc936e7f9ced4ae221b6e3a430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 43/48] fix: prototypes with MFNode events connected by IS can
 be instantiated

getDefault belongs to fields: events have none, and the override in
the mix-in they share raised AttributeError.
---
 vrml/node.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index d28f60c..9972e3c 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -553,13 +553,6 @@ class _MFNode(object):
             weak=False,  # don't weakref receiver so it will hang around...
         )
 
-    def getDefault(self, client=None):
-        """Get the default value, watching the list if it is client's"""
-        value = super(_MFNode, self).getDefault(client)
-        if client is not None and not isinstance(client, type):
-            self._watchList(client, value)
-        return value
-
     def coerce(self, value):
         """Coerce value to an MFNode list-of-objects"""
         SF = self.__class__.baseSFNode
@@ -605,6 +598,13 @@ class MFNode(_MFNode, field.Field):
         """Set the client's value (see fset)"""
         self.fset(client, value)
 
+    def getDefault(self, client=None):
+        """Get the default value, watching the list if it is client's"""
+        value = super(MFNode, self).getDefault(client)
+        if client is not None and not isinstance(client, type):
+            self._watchList(client, value)
+        return value
+
 
 class MFNodeEvt(_MFNode, field.Event):
     """MFNode Event class"""
-- 
2.43.0


From 82a2f8a952480230882a94aefba61752d52553b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 44/48] fix: an EXTERNPROTO without addresses, or a prototype
 without scenegraph, can be written

Writing either raised AttributeError, as the missing scenegraph reads as NULL.
---
 vrml/vrml97/linearise.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index f01c7b6..1743900 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -207,17 +207,18 @@ class Lineariser:
         externalURL = clientNode.externalURL
         if hasattr(externalURL, '__get__'):
             externalURL = None
-        if externalURL:
+        external = externalURL is not None
+        if external:
             buffer.write('EXTERNPROTO %s [' % (clientName,))
         else:
             buffer.write('PROTO %s [' % (clientName,))
         # write the declaration...
         self._indent()
         self._eventDict(clientNode)
-        self._fieldDict(clientNode, requireDefault=not externalURL)
+        self._fieldDict(clientNode, requireDefault=not external)
         self._dedent()
         linvalues = self.linvalues
-        if externalURL:
+        if external:
             buffer.write('\n] ')
             from vrml import fieldtypes
 
@@ -229,7 +230,7 @@ class Lineariser:
             # references to prototypes not already linearised will cause a recursive
             # call to proto that will write those into the protobuffer before returning
             sg = getSceneGraph(clientNode)
-            if sg is not None:
+            if sg:  # neither None nor NULL
                 self._sceneGraph(sg)
             if 'EndComments' in linvalues and linvalues['EndComments'] * 60 < (
                 (buffer.tell())
-- 
2.43.0


From 23eee2b01b1d3779a0e76f46526fb26482bbbcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 45/48] fix: fields with default values are not written, array
 fields as the others

Among them PointSet's attenuation, which is no field of the standard.
---
 vrml/vrml97/linearise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 1743900..6dc237c 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -384,8 +384,9 @@ class Lineariser:
             # following slows us down, but prevents the chaff from showing up...
             val = field.fget(object)
             default = field.getDefault()
-            if field.nodes:
-                # the declared nodes are already written with the declaration
+            if default is not None:
+                # as it is stored: arrays for lists, and the nodes which
+                # are already written with the declaration
                 default = field.coerce(default)
             if field.name in isMaps:
                 continue
-- 
2.43.0


From ebb0a3687ac5559fa5f23306bc2f2670bba5b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 46/48] fix: NULL equals itself and nothing else

---
 vrml/node.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 9972e3c..748a191 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -281,14 +281,6 @@ class NullNode(Node):
 
     __bool__ = __nonzero__
 
-    def __eq__(self, other):
-        """Compare the NULL node to other objects"""
-        try:
-            if protoName(self) == protoName(other):
-                return 0
-        except (AttributeError, TypeError, ValueError):
-            return -1  # could be 1, doesn't really matter
-
     def clone(self):
         """Replicate the null object (return another pointer to it)"""
         return self
-- 
2.43.0


From 3ec1d2d0a4f2c6dab8ab9a1982c03b6961ee85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:59 +0000
Subject: [PATCH 47/48] fix: copies of NULL are NULL

---
 vrml/node.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrml/node.py b/vrml/node.py
index 748a191..42294d4 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -281,6 +281,14 @@ class NullNode(Node):
 
     __bool__ = __nonzero__
 
+    def __reduce__(self):
+        """Copy and pickle as the one NULL of this module"""
+        return 'NULL'
+
+    def copy(self, copier=None):
+        """Copy the null object (return another pointer to it)"""
+        return self
+
     def clone(self):
         """Replicate the null object (return another pointer to it)"""
         return self
-- 
2.43.0


From 636d2acf11ffa41f4e270035c1d9b90a00e5bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:21 +0000
Subject: [PATCH 48/48] fix: OList item assignment announces the removal after
 the change

---
 vrml/olist.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index 71360c0..1fce1b5 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -112,10 +112,9 @@ class OList( list ):
             return values 
         else:
             current = self[index]
-            if current is not value:
-                self._sendRemoved( current )
             super( OList,self ).__setitem__( index, value )
             if current is not value:
+                self._sendRemoved( current )
                 self._sendAdded( value )
             return value 
     def __setslice__( self, i,j, iterable ):
-- 
2.43.0

