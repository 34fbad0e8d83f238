From e2f115c6a8f7c288a49532a9d62224f84eae153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:04 +0000
Subject: [PATCH 01/48] fix: compare list entries by the type of each key and
 ignore layout text in lists

The text of a list key was parsed with the schema node of the list, so
identityref keys compared by raw prefix:name text; white space in a list entry
made equal entries compare unequal.
---
 src/ncdiff/calculator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 52ba99c..36221ee 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -159,7 +159,8 @@ class BaseCalculator(object):
 
             s_node is passed to prevent it being looked up twice.
             """
-            out = [self._parse_text(find_one_child(node, k), s_node) for k in keys]
+            out = [self._parse_text(find_one_child(node, k), s_node.find(k))
+                   for k in keys]
             return tuple(out)
 
         type_for_tag = {}
@@ -411,8 +412,8 @@ class BaseCalculator(object):
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
-            if schema_node.get("type") == "container":
-                # prevent whitespace in container to cause problems
+            if schema_node.get("type") in ("container", "list"):
+                # prevent whitespace in container or list to cause problems
                 return None
             return node.text
 
-- 
2.43.0


From 52f7af1f7960082e5e3bbea5c1410d6518800a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:04 +0000
Subject: [PATCH 02/48] fix: do not trim list keys that carry their default
 value

RFC 7950 7.8.2: default values of key leafs are ignored.
---
 src/ncdiff/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index aa351b8..987edcb 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -403,6 +403,7 @@ class Config(object):
             # mandatory.
             elif (
                 child_schema_node.get('type') == 'leaf' and
+                child_schema_node.get('is_key') is None and
                 child_schema_node.get('default') is not None and
                 child.text == child_schema_node.get('default')
             ):
-- 
2.43.0


From b1243f528cd0333a2ceab5b7c3b6b60b034e897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:04 +0000
Subject: [PATCH 03/48] fix: drop containers left empty by removing read-only
 nodes in extract_config

---
 src/ncdiff/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f4cea8b..08b5458 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -525,6 +525,8 @@ class ModelDevice(manager.Manager):
         config = Config(self, reply, validate=True,
                         remove_deprecated=remove_deprecated)
         remove_read_only(config.ele)
+        # clean up NP containers that had nothing but read-only nodes
+        config.trim_defaults()
         return config
 
     def get_schema_node(self, config_node):
-- 
2.43.0


From b277bd2cccc178d40d9d88e35133344b374b59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:32 +0000
Subject: [PATCH 04/48] fix: keep identityref and instance-identifier values
 intact when nodes are copied or merged

---
 src/ncdiff/calculator.py | 60 +++++++++++++++++++++++++-------
 src/ncdiff/netconf.py    | 75 +++++++++++++++++++++++++++++++---------
 2 files changed, 106 insertions(+), 29 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 36221ee..af4fcba 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -464,22 +464,56 @@ class BaseCalculator(object):
             There is no return of this method.
         '''
 
+        to_node.text = self._convert_text(from_node, to_node)
+
+    def _convert_text(self, from_node, to_node):
+        '''_convert_text
+
+        Low-level api: Return text value of from_node, expressed with the
+        namespace prefixes available at to_node. Missing namespace declarations
+        are added to to_node.
+
+        Parameters
+        ----------
+
+        from_node : `Element`
+            An Element node in data tree.
+
+        to_node : `Element`
+            An Element node in data tree.
+
+        Returns
+        -------
+
+        None or str
+            None if from_node does not have text, otherwise, text string that
+            has the same meaning at to_node.
+        '''
+
         if from_node.text is None:
-            to_node.text = None
-            return
+            return None
         schema_node = self.device.get_schema_node(from_node)
-        if schema_node.get('datatype') is not None and \
-           schema_node.get('datatype')[:11] == 'identityref':
-            idref = IdentityRef(self.device,
-                                from_node, to_node=to_node)
-            to_node.text = idref.converted
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
-            instanceid = InstanceIdentifier(self.device,
-                                            from_node, to_node=to_node)
-            to_node.text = instanceid.converted
+        datatype = schema_node.get('datatype')
+        if datatype is not None and datatype[:11] == 'identityref':
+            ref = IdentityRef(self.device, from_node, to_node=to_node)
+            declared = set(to_node.nsmap.values())
+        elif datatype is not None and datatype == 'instance-identifier':
+            ref = InstanceIdentifier(self.device, from_node, to_node=to_node)
+            declared = {v for k, v in to_node.nsmap.items() if k is not None}
         else:
-            to_node.text = from_node.text
+            return from_node.text
+        for url in ref.default_ns.values():
+            if url not in declared:
+                self._declare_namespace(to_node, url)
+        return ref.converted
+
+    @staticmethod
+    def _declare_namespace(node, url):
+        # lxml does not allow changing the namespace mapping of an existing
+        # node, but setting an attribute declares the namespace it needs
+        attribute = '{' + url + '}ns'
+        node.set(attribute, '')
+        del node.attrib[attribute]
 
     @property
     def le(self):
diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d93cd67..f3ed337 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -563,8 +563,9 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        e = deepcopy(child_other)
-        node_sum.append(self._del_attrib(e))
+        e = self._del_attrib(deepcopy(child_other))
+        node_sum.append(e)
+        self._restore_text(child_other, e)
 
     def _node_add_without_peer_leaflist(self, node_sum, child_other):
         '''_node_add_without_peer_leaflist
@@ -591,21 +592,21 @@ class NetconfCalculator(BaseCalculator):
         '''
 
         s_node = self.device.get_schema_node(child_other)
-        e = deepcopy(child_other)
+        e = self._del_attrib(deepcopy(child_other))
         scope = node_sum.getchildren()
         siblings = self._get_sequence(scope, child_other.tag, node_sum)
         if s_node.get('ordered-by') == 'user' and \
            child_other.get(insert_tag) is not None:
             if child_other.get(insert_tag) == 'first':
                 if siblings:
-                    siblings[0].addprevious(self._del_attrib(e))
+                    siblings[0].addprevious(e)
                 else:
-                    node_sum.append(self._del_attrib(e))
+                    node_sum.append(e)
             elif child_other.get(insert_tag) == 'last':
                 if siblings:
-                    siblings[-1].addnext(self._del_attrib(e))
+                    siblings[-1].addnext(e)
                 else:
-                    node_sum.append(self._del_attrib(e))
+                    node_sum.append(e)
             elif child_other.get(insert_tag) == 'before':
                 if child_other.get(value_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
@@ -617,7 +618,7 @@ class NetconfCalculator(BaseCalculator):
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
                     _inserterror('before', path, 'value', value)
-                sibling[0].addprevious(self._del_attrib(e))
+                sibling[0].addprevious(e)
             elif child_other.get(insert_tag) == 'after':
                 if child_other.get(value_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
@@ -629,12 +630,13 @@ class NetconfCalculator(BaseCalculator):
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
                     _inserterror('after', path, 'value', value)
-                sibling[0].addnext(self._del_attrib(e))
+                sibling[0].addnext(e)
         else:
             if siblings:
-                siblings[-1].addnext(self._del_attrib(e))
+                siblings[-1].addnext(e)
             else:
-                node_sum.append(self._del_attrib(e))
+                node_sum.append(e)
+        self._restore_text(child_other, e)
 
     def _node_add_without_peer_container(self, node_sum, child_other):
         '''_node_add_without_peer_container
@@ -669,7 +671,9 @@ class NetconfCalculator(BaseCalculator):
             this_operation == 'replace' or
             this_operation == 'create'
         ):
-            node_sum.append(self._del_attrib(deepcopy(child_other)))
+            e = self._del_attrib(deepcopy(child_other))
+            node_sum.append(e)
+            self._restore_text(child_other, e)
 
     def _node_add_without_peer_list(self, node_sum, child_other):
         '''_node_add_without_peer_list
@@ -752,7 +756,12 @@ class NetconfCalculator(BaseCalculator):
             else:
                 node_sum.append(e)
         if this_operation == 'merge':
+            for list_key_tag in self._get_list_keys(s_node):
+                self._restore_text(child_other.find(list_key_tag),
+                                   e.find(list_key_tag))
             self.node_add(e, child_other)
+        else:
+            self._restore_text(child_other, e)
 
     def _node_add_with_peer_leaf(self, child_self, child_other):
         '''_node_add_with_peer_leaf
@@ -917,8 +926,9 @@ class NetconfCalculator(BaseCalculator):
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
-            parent_self.replace(child_self,
-                                self._del_attrib(deepcopy(child_other)))
+            e = self._del_attrib(deepcopy(child_other))
+            parent_self.replace(child_self, e)
+            self._restore_text(child_other, e)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
@@ -1007,8 +1017,9 @@ class NetconfCalculator(BaseCalculator):
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
-            parent_self.replace(child_self,
-                                self._del_attrib(deepcopy(child_other)))
+            e = self._del_attrib(deepcopy(child_other))
+            parent_self.replace(child_self, e)
+            self._restore_text(child_other, e)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
@@ -1350,6 +1361,38 @@ class NetconfCalculator(BaseCalculator):
             else:
                 child.set(operation_tag, 'delete')
 
+    def _restore_text(self, node, copied_node):
+        '''_restore_text
+
+        Low-level api: When a copied node is placed under another parent, lxml
+        may drop or rename namespace prefixes that text values depend on. This
+        method gives the text values of the copy their original meaning.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            The original node.
+
+        copied_node : `Element`
+            A copy of the original node, after being placed.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        for original, copied in zip(node.iter(tag=etree.Element),
+                                    copied_node.iter(tag=etree.Element)):
+            if (
+                original.text is not None and
+                len(original) == 0 and
+                original.nsmap != copied.nsmap
+            ):
+                self._merge_text(original, copied)
+
     @staticmethod
     def _url_to_prefix(node, id):
         '''_url_to_prefix
-- 
2.43.0


From ffb737492c93ecc32c9dcaf5576b380a1a6e09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:10 +0000
Subject: [PATCH 05/48] fix: compose and resolve insert anchors by value
 instead of by raw text and prefix

---
 src/ncdiff/netconf.py | 172 ++++++++++++++++++++++++++++--------------
 1 file changed, 116 insertions(+), 56 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index f3ed337..5a558a9 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -434,19 +434,12 @@ class NetconfCalculator(BaseCalculator):
                     item.set(insert_tag, 'after')
                     precursor = sequence[i - 1]
                     if ordered_by_user[tag] == 'leaf-list':
-                        item.set(value_tag, precursor.text)
+                        item.set(value_tag,
+                                 self._convert_text(precursor, item) or '')
                     else:
                         keys = ordered_by_user[tag]
-                        key_nodes = {k: precursor.find(k) for k in keys}
-                        ids = {
-                            k: self._url_to_prefix(n, k)
-                            for k, n in key_nodes.items()
-                        }
-                        id_list = [
-                            "[{}='{}']".format(ids[k], key_nodes[k].text)
-                            for k in keys
-                        ]
-                        item.set(key_tag, ''.join(id_list))
+                        item.set(key_tag,
+                                 self._key_predicates(precursor, keys, item))
 
     def node_add(self, node_sum, node_other):
         '''node_add
@@ -611,9 +604,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(value_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'value')
-                siblings = node_sum.findall(child_other.tag)
-                sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                sibling = self._get_anchors(child_other, node_sum)
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -623,9 +614,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(value_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'value')
-                siblings = node_sum.findall(child_other.tag)
-                sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                sibling = self._get_anchors(child_other, node_sum)
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -730,26 +719,22 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'key')
-                sibling = node_sum.find(child_other.tag +
-                                        child_other.get(key_tag),
-                                        namespaces=child_other.nsmap)
-                if sibling is None:
+                sibling = self._get_anchors(child_other, node_sum)
+                if not sibling:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
                     _inserterror('before', path, 'key', key)
-                sibling.addprevious(e)
+                sibling[0].addprevious(e)
             elif child_other.get(insert_tag) == 'after':
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'key')
-                sibling = node_sum.find(child_other.tag +
-                                        child_other.get(key_tag),
-                                        namespaces=child_other.nsmap)
-                if sibling is None:
+                sibling = self._get_anchors(child_other, node_sum)
+                if not sibling:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
                     _inserterror('after', path, 'key', key)
-                sibling.addnext(e)
+                sibling[0].addnext(e)
         else:
             if siblings:
                 siblings[-1].addnext(e)
@@ -858,9 +843,7 @@ class NetconfCalculator(BaseCalculator):
                         _inserterror('before',
                                      self.device.get_xpath(child_other),
                                      'value')
-                    siblings = parent_self.findall(child_other.tag)
-                    sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                    sibling = self._get_anchors(child_other, parent_self)
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -872,9 +855,7 @@ class NetconfCalculator(BaseCalculator):
                         _inserterror('after',
                                      self.device.get_xpath(child_other),
                                      'value')
-                    siblings = parent_self.findall(child_other.tag)
-                    sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                    sibling = self._get_anchors(child_other, parent_self)
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -992,28 +973,24 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'key')
-                sibling = parent_self.find(child_other.tag +
-                                           child_other.get(key_tag),
-                                           namespaces=child_other.nsmap)
-                if sibling is None:
+                sibling = self._get_anchors(child_other, parent_self)
+                if not sibling:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
                     _inserterror('before', path, 'key', key)
-                if sibling != child_self:
-                    sibling.addprevious(child_self)
+                if sibling[0] != child_self:
+                    sibling[0].addprevious(child_self)
             elif child_other.get(insert_tag) == 'after':
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'key')
-                sibling = parent_self.find(child_other.tag +
-                                           child_other.get(key_tag),
-                                           namespaces=child_other.nsmap)
-                if sibling is None:
+                sibling = self._get_anchors(child_other, parent_self)
+                if not sibling:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
                     _inserterror('after', path, 'key', key)
-                if sibling != child_self:
-                    sibling.addnext(child_self)
+                if sibling[0] != child_self:
+                    sibling[0].addnext(child_self)
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
@@ -1258,19 +1235,12 @@ class NetconfCalculator(BaseCalculator):
                         item.set(insert_tag, 'after')
                         precursor = sequence[i - 1]
                         if ordered_by_user[tag] == 'leaf-list':
-                            item.set(value_tag, precursor.text)
+                            item.set(value_tag,
+                                     self._convert_text(precursor, item) or '')
                         else:
                             keys = ordered_by_user[tag]
-                            key_nodes = {k: precursor.find(k) for k in keys}
-                            ids = {
-                                k: self._url_to_prefix(n, k)
-                                for k, n in key_nodes.items()
-                            }
-                            id_list = [
-                                "[{}='{}']".format(ids[k], key_nodes[k].text)
-                                for k in keys
-                            ]
-                            item.set(key_tag, ''.join(id_list))
+                            item.set(key_tag,
+                                     self._key_predicates(precursor, keys, item))
 
     def set_create_operation(self, node):
         '''set_create_operation
@@ -1393,6 +1363,96 @@ class NetconfCalculator(BaseCalculator):
             ):
                 self._merge_text(original, copied)
 
+    def _key_predicates(self, node, keys, item):
+        '''_key_predicates
+
+        Low-level api: Compose a value of attribute 'key' that identifies a
+        list entry, using namespace prefixes available at another entry, which
+        carries the attribute.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            The list entry being identified.
+
+        keys : `list`
+            A list of tags of keys in `{url}tagname` notation.
+
+        item : `Element`
+            The list entry that carries the attribute.
+
+        Returns
+        -------
+
+        str
+            Key predicates.
+        '''
+
+        predicates = []
+        for key in keys:
+            text = self._convert_text(node.find(key), item) or ''
+            predicates.append('[{}={}{}{}]'.format(
+                self._url_to_prefix(item, key),
+                '"' if "'" in text else "'",
+                text,
+                '"' if "'" in text else "'",
+            ))
+        return ''.join(predicates)
+
+    def _get_anchors(self, node, parent):
+        '''_get_anchors
+
+        Low-level api: Find the siblings that attribute 'value' or 'key' of a
+        leaf-list or list node refers to.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A leaf-list or list node with attribute 'value' or 'key'.
+
+        parent : `Element`
+            Siblings are searched under this node.
+
+        Returns
+        -------
+
+        list
+            A list of children of the parent.
+        '''
+
+        def parse(tag, text, schema_node):
+            anchor = etree.Element(tag, nsmap=node.nsmap)
+            anchor.text = text
+            return self._parse_text(anchor, schema_node)
+
+        s_node = self.device.get_schema_node(node)
+        siblings = parent.findall(node.tag)
+        if s_node.get('type') == 'leaf-list':
+            value = parse(node.tag, node.get(value_tag) or None, s_node)
+            return [s for s in siblings
+                    if self._parse_text(s, s_node) == value]
+        url = etree.QName(node).namespace
+        values = {}
+        for prefix, name, quoted in re.findall(
+            r'''\[\s*(?:([^\s:=\[\]]+):)?([^\s:=\[\]]+)\s*=\s*'''
+            r'''("[^"]*"|'[^']*')\s*\]''',
+            node.get(key_tag)
+        ):
+            key = '{{{}}}{}'.format(
+                node.nsmap.get(prefix) if prefix else url, name)
+            schema_key = s_node.find(key)
+            if schema_key is None:
+                return []
+            values[key] = parse(key, quoted[1:-1] or None, schema_key)
+        keys = self._get_list_keys(s_node)
+        if set(values) != set(keys):
+            return []
+        return [s for s in siblings
+                if all(self._parse_text(s.find(k)) == values[k]
+                       for k in keys)]
+
     @staticmethod
     def _url_to_prefix(node, id):
         '''_url_to_prefix
-- 
2.43.0


From 74aec45d4d0a79baf0ccc506d735891bdc6e3289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:35 +0000
Subject: [PATCH 06/48] fix: apply the children of an edit in document order as
 devices do

---
 src/ncdiff/netconf.py | 98 ++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 48 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 5a558a9..6685979 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -470,54 +470,55 @@ class NetconfCalculator(BaseCalculator):
             'container',
             'list',
             ]
-        in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
-            self._group_kids(node_sum, node_other)
-        for child_self in in_s_not_in_o:
-            pass
-
-        for child_other in in_o_not_in_s:
-            this_operation = child_other.get(operation_tag, default='merge')
-
-            # delete
-            if this_operation == 'delete':
-                raise ConfigDeltaError(
-                    'data-missing: try to delete node {} but it does not '
-                    'exist in config'.format(
-                        self.device.get_xpath(child_other)
+        # A device processes an edit in document order
+        peers = {
+            child_other: child_self
+            for child_self, child_other in self._pair_children(node_sum,
+                                                               node_other)
+        }
+        for child_other in node_other.getchildren():
+            s_node = self.device.get_schema_node(child_other)
+            child_self = peers[child_other]
+            if child_self is None or child_self.getparent() is not node_sum:
+                this_operation = child_other.get(operation_tag, default='merge')
+
+                # delete
+                if this_operation == 'delete':
+                    raise ConfigDeltaError(
+                        'data-missing: try to delete node {} but it does not '
+                        'exist in config'.format(
+                            self.device.get_xpath(child_other)
+                        )
                     )
-                )
 
-            # remove
-            elif this_operation == 'remove':
-                pass
+                # remove
+                elif this_operation == 'remove':
+                    pass
 
-            # merge, create, replace or none
-            elif (
-                this_operation == 'merge' or
-                this_operation == 'replace' or
-                this_operation == 'create'
-            ):
-                s_node = self.device.get_schema_node(child_other)
-                if s_node.get('type') in supported_node_type:
-                    getattr(
-                        self,
-                        '_node_add_without_peer_{}'.format(
-                            s_node.get('type').replace('-', '')
-                        )
-                    )(node_sum, child_other)
+                # merge, create, replace or none
+                elif (
+                    this_operation == 'merge' or
+                    this_operation == 'replace' or
+                    this_operation == 'create'
+                ):
+                    if s_node.get('type') in supported_node_type:
+                        getattr(
+                            self,
+                            '_node_add_without_peer_{}'.format(
+                                s_node.get('type').replace('-', '')
+                            )
+                        )(node_sum, child_other)
 
-            else:
-                raise ConfigDeltaError(
-                    "unknown operation: node {} contains operation "
-                    "'{}'".format(
-                        self.device.get_xpath(child_other),
-                        this_operation
+                else:
+                    raise ConfigDeltaError(
+                        "unknown operation: node {} contains operation "
+                        "'{}'".format(
+                            self.device.get_xpath(child_other),
+                            this_operation
+                        )
                     )
-                )
 
-        for child_self, child_other in in_s_and_in_o:
-            s_node = self.device.get_schema_node(child_self)
-            if s_node.get('type') in supported_node_type:
+            elif s_node.get('type') in supported_node_type:
                 getattr(
                     self,
                     '_node_add_with_peer_{}'.format(
@@ -525,12 +526,13 @@ class NetconfCalculator(BaseCalculator):
                     )
                 )(child_self, child_other)
 
-            if not list(child_self):
-                if (
-                    s_node.get('type') == 'container' and
-                    s_node.get('presence') != 'true'
-                ):
-                    node_sum.remove(child_self)
+            if (
+                s_node.get('type') == 'container' and
+                s_node.get('presence') != 'true'
+            ):
+                for child in node_sum.findall(child_other.tag):
+                    if not list(child):
+                        node_sum.remove(child)
 
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
-- 
2.43.0


From adb153ed25fb0351a73ac05946a80f6b66c9b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:06 +0000
Subject: [PATCH 07/48] fix: honour nested choices in deltas and clear other
 cases when applying an edit

---
 src/ncdiff/netconf.py | 95 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 75 insertions(+), 20 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 6685979..f30660d 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -334,6 +334,8 @@ class NetconfCalculator(BaseCalculator):
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_self, node_other)
         ordered_by_user = {}
+        cases_s = self._get_cases(
+            *[self.device.get_schema_node(c) for c in in_s_not_in_o])
 
         for child_self in in_s_not_in_o:
             child_self.set(operation_tag, 'replace')
@@ -358,7 +360,7 @@ class NetconfCalculator(BaseCalculator):
             siblings = list(node_self.iterchildren(tag=child_other.tag))
             if siblings:
                 siblings[-1].addnext(child_self)
-            else:
+            elif not self._in_other_case(child_other, cases_s):
                 node_self.append(child_self)
             s_node = self.device.get_schema_node(child_other)
             if s_node.get('type') == 'leaf-list':
@@ -534,6 +536,13 @@ class NetconfCalculator(BaseCalculator):
                     if not list(child):
                         node_sum.remove(child)
 
+            # Only one case of a choice can exist
+            cases = self._get_cases(s_node)
+            if cases and node_sum.find(child_other.tag) is not None:
+                for child in node_sum.getchildren():
+                    if self._in_other_case(child, cases):
+                        node_sum.remove(child)
+
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
@@ -1064,7 +1073,10 @@ class NetconfCalculator(BaseCalculator):
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_self, node_other)
         ordered_by_user = {}
-        choice_nodes = {}
+        cases_s = self._get_cases(
+            *[self.device.get_schema_node(c) for c in in_s_not_in_o])
+        cases_o = self._get_cases(
+            *[self.device.get_schema_node(c) for c in in_o_not_in_s])
         for child_self in in_s_not_in_o:
             child_other = etree.Element(child_self.tag,
                                         nsmap=child_self.nsmap)
@@ -1077,7 +1089,7 @@ class NetconfCalculator(BaseCalculator):
             siblings = list(node_other.iterchildren(tag=child_self.tag))
             if siblings:
                 siblings[-1].addnext(child_other)
-            else:
+            elif not self._in_other_case(child_self, cases_o):
                 node_other.append(child_other)
             s_node = self.device.get_schema_node(child_self)
             if s_node.get('type') == 'leaf-list':
@@ -1105,10 +1117,6 @@ class NetconfCalculator(BaseCalculator):
                 self.set_delete_operation(child_other, child_self)
             else:
                 child_other.set(operation_tag, self.preferred_delete)
-            if s_node.getparent().get('type') == 'case':
-                # key: choice node, value: case node
-                choice_nodes[s_node.getparent().getparent()] = \
-                    s_node.getparent()
         for child_other in in_o_not_in_s:
             child_self = etree.Element(child_other.tag,
                                        nsmap=child_other.nsmap)
@@ -1120,19 +1128,10 @@ class NetconfCalculator(BaseCalculator):
             s_node = self.device.get_schema_node(child_other)
             if siblings:
                 siblings[-1].addnext(child_self)
-            else:
-                # Append node if:
-                # - Node not in case
-                # - Node in case but choice node not in self
-                # - Node in case and choice node in self and the same case also
-                #   in self
-                if s_node.getparent().get('type') == 'case':
-                    choice_node = s_node.getparent().getparent()
-                    if choice_node not in choice_nodes or \
-                       s_node.getparent() == choice_nodes[choice_node]:
-                        node_self.append(child_self)
-                else:
-                    node_self.append(child_self)
+            elif not self._in_other_case(child_other, cases_s):
+                # A node in another case of a choice is deleted by creating
+                # nodes in the case that exists in self
+                node_self.append(child_self)
             if s_node.get('type') == 'leaf-list':
                 if s_node.get('ordered-by') == 'user' and \
                    s_node.tag not in ordered_by_user:
@@ -1333,6 +1332,62 @@ class NetconfCalculator(BaseCalculator):
             else:
                 child.set(operation_tag, 'delete')
 
+    @staticmethod
+    def _get_cases(*schema_nodes):
+        '''_get_cases
+
+        Low-level api: Find the cases that schema nodes belong to.
+
+        Parameters
+        ----------
+
+        schema_nodes : `Element`
+            Schema nodes.
+
+        Returns
+        -------
+
+        dict
+            Keys are choice nodes, and values are case nodes.
+        '''
+
+        cases = {}
+        for schema_node in schema_nodes:
+            node = schema_node.getparent()
+            while node is not None and node.get('type') in ['case', 'choice']:
+                if node.get('type') == 'case':
+                    cases[node.getparent()] = node
+                node = node.getparent()
+        return cases
+
+    def _in_other_case(self, node, cases):
+        '''_in_other_case
+
+        Low-level api: Tell whether a data node cannot exist together with
+        some cases.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A data node.
+
+        cases : `dict`
+            Keys are choice nodes, and values are case nodes.
+
+        Returns
+        -------
+
+        bool
+            True if the node belongs to a different case of the same choice.
+        '''
+
+        if not cases:
+            return False
+        own_cases = self._get_cases(self.device.get_schema_node(node))
+        return any(choice in cases and cases[choice] != case
+                   for choice, case in own_cases.items())
+
     def _restore_text(self, node, copied_node):
         '''_restore_text
 
-- 
2.43.0


From e4573afcc4fa2a9266736a8607225285efb8670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:14 +0000
Subject: [PATCH 08/48] fix: keep namespaces of nodes whose prefix gets hidden
 when trees are combined

---
 src/ncdiff/netconf.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index f30660d..8193190 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -49,6 +49,18 @@ def _copy_elements(new_parent, elements):
         _copy_element(new_parent, element)
 
 
+def _rebuild(element):
+    # When nodes are moved from one tree to another, lxml may let a namespace
+    # declaration hide the prefix of its own node, so the node would change its
+    # namespace when the tree is copied or serialized. Start from a new tree,
+    # in which nodes are not moved.
+    root = etree.Element(element.tag,
+                         attrib=element.attrib,
+                         nsmap=element.nsmap)
+    _copy_elements(root, element)
+    return root
+
+
 class NetconfParser(object):
     '''NetconfParser
 
@@ -197,7 +209,7 @@ class NetconfCalculator(BaseCalculator):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
         self.node_add(ele1, ele2)
-        return ele1
+        return _rebuild(ele1)
 
     @property
     def sub(self):
@@ -214,7 +226,7 @@ class NetconfCalculator(BaseCalculator):
             self.add_attribute_by_xpath(ele1, self.replace_xpath, 'operation', 'replace', namespaces)
         elif self.diff_type == 'minimum-replace':
             self.add_attribute_at_depth(ele1, self.replace_depth+1, 'operation', 'replace')
-        return ele1
+        return _rebuild(ele1)
 
     def add_attribute_at_depth(self, root, depth, attribute, value):
         '''add_attribute_at_depth
-- 
2.43.0


From 427745e6d6a384c8c5e1df2628417a5a34bf699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:17 +0000
Subject: [PATCH 09/48] fix: keep identityref values of user-ordered entries
 when they are repositioned

---
 src/ncdiff/calculator.py | 15 +++++++++----
 src/ncdiff/netconf.py    | 46 ++++++++++++++++++++++++++++++++--------
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index af4fcba..e4fb402 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -442,7 +442,7 @@ class BaseCalculator(object):
             return True
         return self._parse_text(node1) == self._parse_text(node2)
 
-    def _merge_text(self, from_node, to_node):
+    def _merge_text(self, from_node, to_node, schema_node=None):
         '''_merge_text
 
         Low-level api: Set text value of to_node according to the text value of
@@ -457,6 +457,9 @@ class BaseCalculator(object):
         to_node : `Element`
             An Element node in data tree.
 
+        schema_node : `Element`
+            The schema node of from_node. It is looked up by default.
+
         Returns
         -------
 
@@ -464,9 +467,9 @@ class BaseCalculator(object):
             There is no return of this method.
         '''
 
-        to_node.text = self._convert_text(from_node, to_node)
+        to_node.text = self._convert_text(from_node, to_node, schema_node)
 
-    def _convert_text(self, from_node, to_node):
+    def _convert_text(self, from_node, to_node, schema_node=None):
         '''_convert_text
 
         Low-level api: Return text value of from_node, expressed with the
@@ -482,6 +485,9 @@ class BaseCalculator(object):
         to_node : `Element`
             An Element node in data tree.
 
+        schema_node : `Element`
+            The schema node of from_node. It is looked up by default.
+
         Returns
         -------
 
@@ -492,7 +498,8 @@ class BaseCalculator(object):
 
         if from_node.text is None:
             return None
-        schema_node = self.device.get_schema_node(from_node)
+        if schema_node is None:
+            schema_node = self.device.get_schema_node(from_node)
         datatype = schema_node.get('datatype')
         if datatype is not None and datatype[:11] == 'identityref':
             ref = IdentityRef(self.device, from_node, to_node=to_node)
diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 8193190..fc60ff5 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -57,6 +57,7 @@ def _rebuild(element):
     root = etree.Element(element.tag,
                          attrib=element.attrib,
                          nsmap=element.nsmap)
+    root.text = element.text
     _copy_elements(root, element)
     return root
 
@@ -854,13 +855,13 @@ class NetconfCalculator(BaseCalculator):
                     siblings = self._get_sequence(scope, child_other.tag,
                                                   parent_self)
                     if siblings[0] != child_self:
-                        siblings[0].addprevious(child_self)
+                        self._move(child_self, siblings[0].addprevious)
                 elif child_other.get(insert_tag) == 'last':
                     scope = parent_self.getchildren()
                     siblings = self._get_sequence(scope, child_other.tag,
                                                   parent_self)
                     if siblings[-1] != child_self:
-                        siblings[-1].addnext(child_self)
+                        self._move(child_self, siblings[-1].addnext)
                 elif child_other.get(insert_tag) == 'before':
                     if child_other.get(value_tag) is None:
                         _inserterror('before',
@@ -872,7 +873,7 @@ class NetconfCalculator(BaseCalculator):
                         value = child_other.get(value_tag)
                         _inserterror('before', path, 'value', value)
                     if sibling[0] != child_self:
-                        sibling[0].addprevious(child_self)
+                        self._move(child_self, sibling[0].addprevious)
                 elif child_other.get(insert_tag) == 'after':
                     if child_other.get(value_tag) is None:
                         _inserterror('after',
@@ -884,7 +885,7 @@ class NetconfCalculator(BaseCalculator):
                         value = child_other.get(value_tag)
                         _inserterror('after', path, 'value', value)
                     if sibling[0] != child_self:
-                        sibling[0].addnext(child_self)
+                        self._move(child_self, sibling[0].addnext)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
@@ -985,13 +986,13 @@ class NetconfCalculator(BaseCalculator):
                 siblings = self._get_sequence(scope, child_other.tag,
                                               parent_self)
                 if siblings[0] != child_self:
-                    siblings[0].addprevious(child_self)
+                    self._move(child_self, siblings[0].addprevious)
             elif child_other.get(insert_tag) == 'last':
                 scope = parent_self.getchildren()
                 siblings = self._get_sequence(scope, child_other.tag,
                                               parent_self)
                 if siblings[-1] != child_self:
-                    siblings[-1].addnext(child_self)
+                    self._move(child_self, siblings[-1].addnext)
             elif child_other.get(insert_tag) == 'before':
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
@@ -1002,7 +1003,7 @@ class NetconfCalculator(BaseCalculator):
                     key = child_other.get(key_tag)
                     _inserterror('before', path, 'key', key)
                 if sibling[0] != child_self:
-                    sibling[0].addprevious(child_self)
+                    self._move(child_self, sibling[0].addprevious)
             elif child_other.get(insert_tag) == 'after':
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
@@ -1013,7 +1014,7 @@ class NetconfCalculator(BaseCalculator):
                     key = child_other.get(key_tag)
                     _inserterror('after', path, 'key', key)
                 if sibling[0] != child_self:
-                    sibling[0].addnext(child_self)
+                    self._move(child_self, sibling[0].addnext)
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
@@ -1430,7 +1431,34 @@ class NetconfCalculator(BaseCalculator):
                 len(original) == 0 and
                 original.nsmap != copied.nsmap
             ):
-                self._merge_text(original, copied)
+                self._merge_text(original, copied,
+                                 self.device.get_schema_node(copied))
+
+    def _move(self, node, place):
+        '''_move
+
+        Low-level api: Move a node to another position under its parent.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            The node being moved.
+
+        place : `function`
+            A function that places the node, e.g., method addnext() of one of
+            its siblings.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        original = _rebuild(node)
+        place(node)
+        self._restore_text(original, node)
 
     def _key_predicates(self, node, keys, item):
         '''_key_predicates
-- 
2.43.0


From dc2267bb6860d591ee2bbce35476fc6decae57ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:54 +0000
Subject: [PATCH 10/48] fix: reorder randomised deltas without touching global
 random state, prefixes or user order

---
 src/ncdiff/config.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 987edcb..1da40ce 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -8,7 +8,7 @@ from ncclient import operations, xml_
 
 from .model import ModelDiff
 from .errors import ConfigError, ModelMissing, ModelIncompatible
-from .netconf import NetconfParser, NetconfCalculator
+from .netconf import NetconfParser, NetconfCalculator, _copy_elements
 from .composer import Composer
 from .calculator import BaseCalculator
 
@@ -817,26 +817,39 @@ class ConfigDelta(object):
         Randomly reorder child nodes of a given node.
         '''
 
-        buffer = {i: j for i, j in enumerate(node)}
-        length = len(buffer)
+        children = list(node)
+        schema_nodes = [self.device.get_schema_node(c) for c in children]
+        length = len(children)
         num_keys = 0
         for i in range(length):
-            schema_node = self.device.get_schema_node(buffer[i])
-            if schema_node.get('is_key') == "true":
+            if schema_nodes[i].get('is_key') == "true":
                 num_keys += 1
             else:
                 break
-        if length - num_keys == 2:
-            node.remove(buffer[num_keys])
-            node.append(buffer[num_keys])
-        elif length - num_keys > 2:
-            random.seed(seed)
-            old_sequence = list(range(num_keys, length))
-            new_sequence = random.sample(
+        old_sequence = list(range(num_keys, length))
+        if len(old_sequence) < 2:
+            return
+        elif len(old_sequence) == 2:
+            new_sequence = old_sequence[::-1]
+        else:
+            # do not disturb the random numbers of others
+            new_sequence = random.Random(seed).sample(
                 range(num_keys, length), length - num_keys)
-            [node.remove(buffer[i]) for i in reversed(old_sequence)]
-            [node.append(buffer[i]) for i in new_sequence]
 
+        # entries that are ordered by user refer to each other, so they have to
+        # stay in sequence
+        for schema_node in set(schema_nodes):
+            if schema_node.get('ordered-by') == 'user':
+                positions = [i for i, j in enumerate(new_sequence)
+                             if schema_nodes[j] is schema_node]
+                for i, j in zip(positions,
+                                sorted(new_sequence[i] for i in positions)):
+                    new_sequence[i] = j
+
+        # moving nodes would change their namespace declarations
+        _copy_elements(node, [children[i] for i in new_sequence])
+        for i in old_sequence:
+            node.remove(children[i])
 
     def reorder(self,node, seed, depth, current_depth):
         '''
-- 
2.43.0


From 75691b5163c3773f27b87ba9f625a77907cf7cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:17 +0000
Subject: [PATCH 11/48] fix: generate the documented random seed when a delta
 gets a random depth only

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 1da40ce..08c9c29 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -672,7 +672,7 @@ class ConfigDelta(object):
             raise ValueError("argument 'random_depth' must be a non-negative "
                              "integer or None, but not {} '{}'"
                              .format(type(random_depth), random_depth))
-        self._random_seed = random_seed
+        self.random_seed = random_seed
         if not isinstance(config_src, Config):
             raise TypeError("argument 'config_src' must be "
                             "yang.ncdiff.Config, but not '{}'"
-- 
2.43.0


From 1a680948995eebdb4f36c01dd6939dd38478ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:29 +0000
Subject: [PATCH 12/48] fix: a Config made from another Config gets its own
 content

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 08c9c29..c6e8b47 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -78,7 +78,7 @@ class Config(object):
             self.parser = NetconfParser(self.device, config)
             self.ele = self.parser.ele
         elif isinstance(config, Config):
-            self.ele = config.ele
+            self.ele = deepcopy(config.ele)
         else:
             raise TypeError("argument 'config' must be None, XML string, "
                             "or Element, but not '{}'"
-- 
2.43.0


From dc8d77a604cd1c7c32a8fe455f4b4382c91a6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:52 +0000
Subject: [PATCH 13/48] fix: do not put a replace operation on the config root

---
 src/ncdiff/netconf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index fc60ff5..d5cfdff 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1065,7 +1065,8 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        if self.preferred_replace != 'merge':
+        # operation attribute is not allowed in the root
+        if self.preferred_replace != 'merge' and depth > 0:
             t_self = [
                 c.tag for c in list(node_self)
                 if self.device.get_schema_node(c).get('type') == 'leaf-list'
-- 
2.43.0


From 0ad9fdf8dec9f5f599db9f90103a30b027911a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:07 +0000
Subject: [PATCH 14/48] fix: keep every namespace of a reply reachable when
 prefixes clash

_get_ns() built a prefix to namespace dict from a namespace to prefix dict:
when two models use the same prefix, or a model uses the prefix 'nc' or
'ns00', all but one of the namespaces were lost.
---
 src/ncdiff/manager.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 08b5458..74cc1af 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -1001,11 +1001,23 @@ class ModelDevice(manager.Manager):
         urls = set()
         for node in root.iter():
             urls.update([u for p, u in node.nsmap.items()])
-        ret = {url: get_prefix(url) for url in urls}
+        ret = {}
+        leftover = []
+        for url in sorted(urls, key=lambda u: (u not in special_prefixes, u)):
+            prefix = get_prefix(url)
+            if prefix is None:
+                logger.warning('{} cannot be found in namespaces of any ' \
+                               'models'.format(url))
+                leftover.append(url)
+            elif prefix in ret:
+                logger.warning('prefix {} of {} is used by another model'
+                               .format(prefix, url))
+                leftover.append(url)
+            else:
+                ret[prefix] = url
         i = 0
-        for url in [url for url in ret if ret[url] is None]:
-            logger.warning('{} cannot be found in namespaces of any ' \
-                           'models'.format(url))
-            ret[url] = 'ns{:02d}'.format(i)
-            i += 1
-        return {p: u for u, p in ret.items()}
+        for url in leftover:
+            while 'ns{:02d}'.format(i) in ret:
+                i += 1
+            ret['ns{:02d}'.format(i)] = url
+        return ret
-- 
2.43.0


From 5ea7d085f89a3f5247b9042baeeb04164dcd0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:30 +0000
Subject: [PATCH 15/48] fix: load models whose prefix is reserved by lxml

---
 src/ncdiff/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8ebc5e4..3d04989 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1085,8 +1085,13 @@ class ModelCompiler(object):
                     namespace.text = statement.arg
                     self.module_namespaces[m_statement.i_modulename] = \
                         statement.arg
-                    etree.register_namespace(
-                        m_statement.i_prefix, statement.arg)
+                    try:
+                        etree.register_namespace(
+                            m_statement.i_prefix, statement.arg)
+                    except ValueError:
+                        # lxml reserves prefixes such as ns1 for itself
+                        logger.debug("prefix '{}' cannot be registered"
+                                     .format(m_statement.i_prefix))
 
                 # prepare self.module_prefixes
                 self.module_prefixes[m_statement.i_modulename] = \
-- 
2.43.0


From c88d0ecd9076471ae491270698d2d9c0729a4445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:35 +0000
Subject: [PATCH 16/48] fix: accept a Config given by keyword and a target
 given by position in edit_config

---
 src/ncdiff/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 74cc1af..08286c4 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -426,7 +426,9 @@ class ModelDevice(manager.Manager):
                 args_list = list(args)
                 args_list[0] = args[0].ele
                 args = tuple(args_list)
-            if 'target' not in kwargs and \
+            elif isinstance(kwargs.get('config'), Config):
+                kwargs['config'] = kwargs['config'].ele
+            if len(args) < 3 and 'target' not in kwargs and \
                'urn:ietf:params:netconf:capability:candidate:1.0' not in \
                self.server_capabilities and \
                'urn:ietf:params:netconf:capability:writable-running:1.0' in \
-- 
2.43.0


From 499fa3c2071a3ab0bc58e7c21bed899d8fbf3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:00 +0000
Subject: [PATCH 17/48] fix: publish the namespaces of a device only when they
 are complete

---
 src/ncdiff/manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 08286c4..e078925 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -118,14 +118,17 @@ class ModelDevice(manager.Manager):
             raise ValueError('please first call scan_models() to build '
                              'up supported namespaces of a device')
         if self._namespaces is None:
-            self._namespaces = []
+            namespaces = []
             for m in self.compiler.context.dependencies.findall('./module'):
                 if m.get('prefix') is not None:
-                    self._namespaces.append((
+                    namespaces.append((
                         m.get('id'),
                         m.get('prefix'),
                         m.findtext('namespace')
                     ))
+            # publish the list only when it is complete, as other threads may
+            # use it right away
+            self._namespaces = namespaces
         return self._namespaces
 
     @property
-- 
2.43.0


From 40049f5caba4d96f57b1cbc689a94d354c192a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 18/48] fix: list all derived identities of an identityref
 regardless of what was compiled before

---
 src/ncdiff/model.py | 57 +++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 3d04989..09df1ab 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1044,8 +1044,9 @@ class ModelCompiler(object):
         imports, depends = self.get_dependencies(module)
         required_module_set = imports | depends
         required_module_set.add(module)
+        self.identity_deps = {}
         self.context.internal_reset()
-        for m in required_module_set:
+        for m in sorted(required_module_set):
             modulefile = os.path.join(self.context.repository.dirs[0],
                                       m + '.yang')
             if os.path.isfile(modulefile):
@@ -1100,23 +1101,11 @@ class ModelCompiler(object):
                 # prepare self.identity_deps
                 for idn in m_statement.i_identities.values():
                     curr_idn = m_statement.arg + ':' + idn.arg
-                    base_idn = idn.search_one("base")
-                    if base_idn is None:
-                        # identity does not have a base
-                        self.identity_deps.setdefault(curr_idn, [])
-                    else:
-                        # identity has a base
-                        base_idns = base_idn.arg.split(':')
-                        if len(base_idns) > 1:
-                            # base is located in another module
-                            mn = m_statement.i_prefixes.get(base_idns[0])
-                            b_idn = base_idns[1] if mn is None \
-                                else mn[0] + ':' + base_idns[1]
-                        else:
-                            b_idn = module + ':' + base_idn.arg
-                        if self.identity_deps.get(b_idn) is None:
+                    self.identity_deps.setdefault(curr_idn, [])
+                    for base_idn in idn.search("base"):
+                        b_idn = self.identity_key(base_idn)
+                        if b_idn is not None:
                             self.identity_deps.setdefault(b_idn, [])
-                        else:
                             self.identity_deps[b_idn].append(curr_idn)
 
         for child in vm.i_children:
@@ -1308,27 +1297,29 @@ class ModelCompiler(object):
         base_idn = type_statement.search_one('base')
         if base_idn:
             # identity has a base
-            base_idns = base_idn.arg.split(':')
-            my_modulename = type_statement.i_module.i_modulename
-            if len(base_idns) > 1:
-                modulename = \
-                    type_statement.i_module.i_prefixes.get(base_idns[0])
-                if modulename is None:
-                    return ''
-                else:
-                    idn_key = modulename[0] + ':' + base_idns[1]
-            else:
-                idn_key = my_modulename + ':' + base_idn.arg
-
+            found = set()
+            todo = [self.identity_key(base_idn)]
+            while todo:
+                for value in self.identity_deps.get(todo.pop(), []):
+                    if value not in found:
+                        found.add(value)
+                        todo.append(value)
             value_stmts = []
-            values = self.identity_deps.get(idn_key, [])
-            for value in values:
+            for value in sorted(found):
                 ids = value.split(':')
                 value_stmts.append(self.module_prefixes[ids[0]] + ':' + ids[1])
-            if values:
-                return '|'.join(value_stmts)
+            return '|'.join(value_stmts)
         return ''
 
+    @staticmethod
+    def identity_key(base_statement):
+        # the identity a base statement refers to, in the format of
+        # 'module:identity'
+        identity = getattr(base_statement, 'i_identity', None)
+        if identity is None:
+            return None
+        return identity.i_module.i_modulename + ':' + identity.arg
+
 
 class ModelDiff(object):
     '''ModelDiff
-- 
2.43.0


From 68aad3edeb4c8414ce7741e923c37315b19b8d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 19/48] fix: never reuse a schema folder that was not
 downloaded completely

---
 src/ncdiff/model.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 09df1ab..ac8a87d 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -508,6 +508,7 @@ class DownloadWorker(Thread):
                     self.downloader.download(module)
                 except Exception:
                     logger.exception('Got error while downloading')
+                    self.downloader.failed.add(module)
                 self.downloader.download_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
 
@@ -781,6 +782,7 @@ class ModelDownloader(object):
         repo = FileRepository(path=self.dir_yang)
         self.context = CompilerContext(repository=repo)
         self.download_queue = queue.Queue()
+        self.failed = set()
         self.num_threads = 2
 
     @property
@@ -818,12 +820,16 @@ class ModelDownloader(object):
                         .format(self.yang_capabilities))
             return
 
-        # clean up folder self.dir_yang
+        # clean up folder self.dir_yang, and make sure it is not taken for a
+        # complete one if the process gets interrupted from now on
+        if os.path.isfile(self.yang_capabilities):
+            os.remove(self.yang_capabilities)
         for root, dirs, files in os.walk(self.dir_yang):
             for f in files:
                 os.remove(os.path.join(root, f))
 
         # download all
+        self.failed = set()
         self.to_be_downloaded = set(self.device.models_loadable)
         self.context.dependencies = etree.Element('modules')
         for module in sorted(list(self.to_be_downloaded)):
@@ -835,14 +841,20 @@ class ModelDownloader(object):
             worker.start()
         self.download_queue.join()
 
+        # write dependencies
+        self.context.write_dependencies()
+
         # write self.yang_capabilities
+        if self.failed:
+            logger.warning('Folder {} is incomplete as these modules or '
+                           'submodules failed to be downloaded: {}'
+                           .format(self.dir_yang,
+                                   ', '.join(sorted(self.failed))))
+            return
         capabilities = '\n'.join(sorted(list(self.device.server_capabilities)))
         with open(self.yang_capabilities, 'wb') as f:
             f.write(capabilities.encode('utf-8'))
 
-        # write dependencies
-        self.context.write_dependencies()
-
     def download(self, module):
         '''download
 
-- 
2.43.0


From 847dcdfea7fa5a45aa5633fed8f586e0ba67f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 20/48] fix: read the module library and all legal module names
 in model discovery

---
 src/ncdiff/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index e078925..2f99c59 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -138,6 +138,7 @@ class ModelDevice(manager.Manager):
         NC_MONITORING = xml_.NETCONF_MONITORING_NS
         YANG_LIB = 'urn:ietf:params:netconf:capability:yang-library'
         YANG_LIB_1_0 = YANG_LIB + ':1.0'
+        YANG_LIB_URL = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
         NC_MONITORING_FILTER = """
             <filter xmlns="urn:ietf:params:xml:ns:netconf:base:1.0" type="subtree">
               <netconf-state xmlns="urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring">
@@ -182,7 +183,7 @@ class ModelDevice(manager.Manager):
         # RFC7950 section 5.6.4
         if [c for c in self.server_capabilities
                 if c[:len(YANG_LIB_1_0)] == YANG_LIB_1_0]:
-            n = {'nc': nc_url, 'yanglib': YANG_LIB}
+            n = {'nc': nc_url, 'yanglib': YANG_LIB_URL}
             p = '/nc:rpc-reply/nc:data/yanglib:modules-state' \
                 '/yanglib:module/yanglib:name'
             try:
@@ -205,7 +206,7 @@ class ModelDevice(manager.Manager):
                         "'ietf-yang-library':\n{}".format(reply))
 
         # RFC6020 section 5.6.4
-        regexp_str = r'module=([a-zA-Z0-9-]+)\&{0,1}'
+        regexp_str = r'[?&]module=([a-zA-Z0-9_.-]+)'
         modules = []
         for capability in iter(self.server_capabilities):
             match = re.search(regexp_str, capability)
-- 
2.43.0


From 2770f9d2883ceb538feb27360131ca36494ea898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 21/48] fix: do not request a schema twice when both workers
 find it at the same time

---
 src/ncdiff/model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index ac8a87d..e18ed5c 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -7,7 +7,7 @@ import logging
 from lxml import etree
 from copy import deepcopy
 from ncclient import operations
-from threading import Thread, current_thread
+from threading import Lock, Thread, current_thread
 from pyang import statements
 try:
     from pyang.repository import FileRepository
@@ -783,6 +783,7 @@ class ModelDownloader(object):
         self.context = CompilerContext(repository=repo)
         self.download_queue = queue.Queue()
         self.failed = set()
+        self.lock = Lock()
         self.num_threads = 2
 
     @property
@@ -900,12 +901,14 @@ class ModelDownloader(object):
             if 'in_format' in varnames:
                 kwargs['in_format'] = 'yang'
             module_statement = self.context.add_module(**kwargs)
-            dependencies = self.context.update_dependencies(module_statement)
-            s = dependencies - self.to_be_downloaded
+            with self.lock:
+                dependencies = self.context.update_dependencies(
+                    module_statement)
+                s = dependencies - self.to_be_downloaded
+                self.to_be_downloaded.update(s)
             if s:
                 logger.info('{} requires submodules: {}'
                             .format(module, ', '.join(s)))
-                self.to_be_downloaded.update(s)
                 for m in s:
                     self.download_queue.put(m)
         else:
-- 
2.43.0


From 7bdc02e185a78aa5ace2a1bb2f7bb5f6356b402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:55 +0000
Subject: [PATCH 22/48] fix: scanning returns when a schema cannot be read,
 decoded or parsed

---
 src/ncdiff/model.py | 62 +++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index e18ed5c..a708c1f 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -527,24 +527,33 @@ class ContextWorker(Thread):
             except queue.Empty:
                 pass
             else:
-                with open(modulefile, 'r', encoding='utf-8') as f:
-                    text = f.read()
-                kwargs = {
-                    'ref': modulefile,
-                    'text': text,
-                }
-                if 'primary_module' in varnames:
-                    kwargs['primary_module'] = True
-                if 'format' in varnames:
-                    kwargs['format'] = 'yang'
-                if 'in_format' in varnames:
-                    kwargs['in_format'] = 'yang'
-                module_statement = self.context.add_module(**kwargs)
-                if module_statement is not None:
-                    self.context.update_dependencies(module_statement)
+                try:
+                    self.load_file(modulefile, varnames)
+                except OSError as e:
+                    self.context.load_error = e
+                except Exception:
+                    logger.exception('Got error while loading {}'
+                                     .format(modulefile))
                 self.context.modulefile_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
 
+    def load_file(self, modulefile, varnames):
+        with open(modulefile, 'r', encoding='utf-8') as f:
+            text = f.read()
+        kwargs = {
+            'ref': modulefile,
+            'text': text,
+        }
+        if 'primary_module' in varnames:
+            kwargs['primary_module'] = True
+        if 'format' in varnames:
+            kwargs['format'] = 'yang'
+        if 'in_format' in varnames:
+            kwargs['in_format'] = 'yang'
+        module_statement = self.context.add_module(**kwargs)
+        if module_statement is not None:
+            self.context.update_dependencies(module_statement)
+
 
 class CompilerContext(Context):
 
@@ -552,6 +561,7 @@ class CompilerContext(Context):
         Context.__init__(self, repository)
         self.dependencies = None
         self.modulefile_queue = None
+        self.load_error = None
         if 'prune' in dir(statements.Statement):
             self.num_threads = 2
         else:
@@ -656,8 +666,9 @@ class CompilerContext(Context):
                     if child_node_name in ['include', 'import']:
                         dependencies.add(statement.arg)
                         if child_node_name == 'import':
-                            child.set('prefix',
-                                      statement.search_one('prefix').arg)
+                            prefix = statement.search_one('prefix')
+                            if prefix is not None:
+                                child.set('prefix', prefix.arg)
 
         for node_name in [
             'container',
@@ -699,6 +710,8 @@ class CompilerContext(Context):
         self.dependencies = read_xml(dependencies_file)
 
     def load_context(self):
+        self.dependencies = etree.Element('modules')
+        self.load_error = None
         self.modulefile_queue = queue.Queue()
         for filename in os.listdir(self.repository.dirs[0]):
             if filename.lower().endswith('.yang'):
@@ -710,6 +723,9 @@ class CompilerContext(Context):
             worker.name = 'context_worker_{}'.format(x)
             worker.start()
         self.modulefile_queue.join()
+        if self.load_error is not None:
+            self.dependencies = None
+            raise self.load_error
         self.write_dependencies()
 
     def validate_context(self):
@@ -885,7 +901,7 @@ class ModelDownloader(object):
             logger.warning("Module or submodule '{}' cannot be downloaded"
                            .format(module))
             return
-        if reply.ok:
+        if reply.ok and reply.data is not None:
             varnames = Context.add_module.__code__.co_varnames
             fname = os.path.join(self.dir_yang, module+'.yang')
             with open(fname, 'wb') as f:
@@ -900,7 +916,15 @@ class ModelDownloader(object):
                 kwargs['format'] = 'yang'
             if 'in_format' in varnames:
                 kwargs['in_format'] = 'yang'
-            module_statement = self.context.add_module(**kwargs)
+            try:
+                module_statement = self.context.add_module(**kwargs)
+            except Exception:
+                logger.exception('Got error while parsing')
+                module_statement = None
+            if module_statement is None:
+                logger.warning("Module or submodule '{}' cannot be parsed"
+                               .format(module))
+                return
             with self.lock:
                 dependencies = self.context.update_dependencies(
                     module_statement)
-- 
2.43.0


From 814fb8361287837168091a01c5062f48fcfbe9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:55 +0000
Subject: [PATCH 23/48] fix: compile with the module a required submodule
 belongs to

---
 src/ncdiff/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index a708c1f..c323b24 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1083,6 +1083,11 @@ class ModelCompiler(object):
         imports, depends = self.get_dependencies(module)
         required_module_set = imports | depends
         required_module_set.add(module)
+        # submodules that augment a module need the module they belong to
+        for m in list(self.context.dependencies):
+            if m.get('id') in required_module_set:
+                required_module_set.update(
+                    b.get('module') for b in m.findall('./belongs-to'))
         self.identity_deps = {}
         self.context.internal_reset()
         for m in sorted(required_module_set):
-- 
2.43.0


From 8f0271440c47b7bac1b3dc213bd9561ab7c8ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:48 +0000
Subject: [PATCH 24/48] fix: read a compiled model file as bytes

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 2f99c59..003543e 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -313,7 +313,7 @@ class ModelDevice(manager.Manager):
             file_name, file_ext = os.path.splitext(model)
             if file_ext.lower() == '.xml':
                 logger.debug('Read model file {}'.format(model))
-                with open(model, 'r') as f:
+                with open(model, 'rb') as f:
                     xml = f.read()
                 parser = etree.XMLParser(remove_blank_text=True)
                 tree = etree.XML(xml, parser)
-- 
2.43.0


From 3175fa78fcd0b75df477e8e57edb1bf2ec517b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 25/48] fix: forget namespaces of the previous scan

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 003543e..bfa7cce 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -276,6 +276,7 @@ class ModelDevice(manager.Manager):
             d = ModelDownloader(self, folder)
             d.download_all(check_before_download=(download == 'check'))
         self.compiler = ModelCompiler(folder)
+        self._namespaces = None
 
     def load_model(self, model):
         '''load_model
-- 
2.43.0


From 2ce3c80d77447fb1c7c34c15aad5e6d30328b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:54 +0000
Subject: [PATCH 26/48] fix: a model without known namespace is missing

---
 src/ncdiff/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index c6e8b47..98fbd5a 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -939,7 +939,9 @@ class ConfigCompatibility(object):
 
         def check_models(models):
             for device in [self.config1.device, self.config2.device]:
-                missing_models = set(models) - set(device.models_loadable)
+                known_models = set(i[0] for i in device.namespaces)
+                missing_models = set(models) - (
+                    set(device.models_loadable) & known_models)
                 if missing_models:
                     raise ModelMissing('model {} does not exist on device {}'
                                        .format(str(list(missing_models))[1:-1],
-- 
2.43.0


From 01caddce2942f4364d4ebbe12dc54ada11f8d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:23 +0000
Subject: [PATCH 27/48] fix: check compatibility when a delta is added to a
 config from the left

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 98fbd5a..aa90ff5 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -787,7 +787,7 @@ class ConfigDelta(object):
 
     def __add__(self, other):
         if isinstance(other, Config):
-            return other + self.nc
+            return other + self
 
     def __sub__(self, other):
         return NotImplemented
-- 
2.43.0


From f5547dfc3085e72161202573c4b037ad88aa067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:22 +0000
Subject: [PATCH 28/48] fix: RunningConfigDiff shared by threads gives the
 reverse diff

---
 src/ncdiff/runningconfig.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 8508937..de89875 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -391,8 +391,10 @@ class RunningConfigDiff(object):
             list1, list2 = self.running2list(self.running1, self.running2)
             self.handle_sibling_cammands(list1)
             self.handle_sibling_cammands(list2)
-            self._diff_list = ListDiff(list1, list2).diff
+            diff_list = ListDiff(list1, list2).diff
             self._diff_list_reverse = ListDiff(list2, list1).diff
+            # set last, as other threads may use both from now on
+            self._diff_list = diff_list
         diff_list = self._diff_list_reverse if reverse else self._diff_list
         return diff_list if diff_list else None
 
-- 
2.43.0


From 70b22c150cb2df57618b338e1ab4dcdf5b394027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:35 +0000
Subject: [PATCH 29/48] fix: compare running-config commands by whole words

---
 src/ncdiff/runningconfig.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index de89875..05ddd71 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -542,9 +542,9 @@ class RunningConfigDiff(object):
                     # - service timestamps debug datetime msec
                     # + service timestamps debug datetime msec localtime
                     #   show-timezone
-                    key_len = len(k)
                     matching_positive_keys = [
-                        key for key in positive_keys if key[:key_len] == k]
+                        key for key in positive_keys
+                        if self.starts_with(key, k)]
                     if not matching_positive_keys:
                         self.append_command('no ' + k,
                                             negative_list, positive_list)
@@ -635,6 +635,11 @@ class RunningConfigDiff(object):
         else:
             return cmd.strip(), False
 
+    @staticmethod
+    def starts_with(long_cmd, short_cmd):
+        # Compare whole words: "vlan 1" does not contain "vlan 10"
+        return (long_cmd + ' ').startswith(short_cmd + ' ')
+
     @staticmethod
     def handle_orderless(list1, list2, depth):
         # Find lines that are orderless
@@ -820,9 +825,9 @@ class RunningConfigDiff(object):
                 if c1 == c2 or len(c1) == len(c2):
                     continue
                 if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
+                    if RunningConfigDiff.starts_with(c2, c1):
                         indexes.add(idx2)
-                elif c1[:len(c2)] == c2:
+                elif RunningConfigDiff.starts_with(c1, c2):
                     indexes.add(idx1)
         if indexes:
             for idx in sorted(indexes, reverse=True):
@@ -841,9 +846,9 @@ class RunningConfigDiff(object):
                 if c1 == c2 or len(c1) == len(c2):
                     continue
                 if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
+                    if RunningConfigDiff.starts_with(c2, c1):
                         indexes.add(idx1)
-                elif c1[:len(c2)] == c2:
+                elif RunningConfigDiff.starts_with(c1, c2):
                     indexes.add(idx2)
         if indexes:
             for idx in sorted(indexes, reverse=True):
-- 
2.43.0


From f705b28f4f76cbd61b4cc34e16432e4a76c6d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:22 +0000
Subject: [PATCH 30/48] fix: keep dots in node names of instance-identifier
 values

---
 src/ncdiff/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index f992b0e..572f8c0 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -381,7 +381,7 @@ class InstanceIdentifier(IdentityRef):
         for idx, char in enumerate(string):
             if start_idx is None and char not in SEPARATORS:
                 start_idx = idx
-            elif start_idx is not None and char in SEPARATORS:
+            elif start_idx is not None and char == '/':
                 end_idx = idx
                 tag = string[start_idx:end_idx]
                 if tag == '*':
-- 
2.43.0


From a7bcb5f584fc510f12b399d303c800ed1b130e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:42 +0000
Subject: [PATCH 31/48] fix: quote values with an apostrophe properly in
 instance-identifiers

---
 src/ncdiff/ref.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 572f8c0..81f73b8 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -299,9 +299,11 @@ class InstanceIdentifier(IdentityRef):
 
     @staticmethod
     def convert_literal(literal):
-        converted_literal = literal[1:-1]
-        converted_literal = re.sub("'", "''", converted_literal)
-        return "'" + re.sub('""', '"', converted_literal) + "'"
+        quote = literal[0]
+        value = literal[1:-1].replace(quote * 2, quote)
+        if "'" in value and '"' not in value:
+            return '"' + value + '"'
+        return "'" + value.replace("'", "''") + "'"
 
     def parse_quote(self):
         string = self.string(1)
@@ -329,11 +331,8 @@ class InstanceIdentifier(IdentityRef):
                         start_escape = None
                         continue
                     end_idx = idx + 1
-                    if opening_quote == '"':
-                        default_literal = \
-                            self.convert_literal(string[start_idx:end_idx])
-                    else:
-                        default_literal = string[start_idx:end_idx]
+                    default_literal = \
+                        self.convert_literal(string[start_idx:end_idx])
                     self.cut(start_idx, end_idx, default_literal, 1)
                     start_idx = None
         if start_idx is not None:
-- 
2.43.0


From 519e6c3fa0eb16647c471529f65068563db6dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:57 +0000
Subject: [PATCH 32/48] fix: accept any white space between the keys of a list

---
 src/ncdiff/composer.py | 2 +-
 src/ncdiff/model.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index 3053a97..1a92c29 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -160,7 +160,7 @@ class Composer(object):
             if keys is None:
                 return []
             keys = [split_tag(i, Tag.JSON_PREFIX)[1]
-                    for i in re.split(' +', keys)]
+                    for i in keys.split()]
             key_tags = [find_key_tag(key) for key in keys]
             return [key_tag for key_tag in key_tags if key_tag is not None]
         else:
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index c323b24..bea08a9 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1182,7 +1182,7 @@ class ModelCompiler(object):
         if child.keyword == 'list':
             sm = child.search_one('key')
             if sm is not None:
-                n.set('key', sm.arg)
+                n.set('key', ' '.join(sm.arg.split()))
             sm = child.search_one('ordered-by')
             if sm is not None and sm.arg == 'user':
                 n.set('ordered-by', 'user')
-- 
2.43.0


From 3866640a2f0fcecc8039562a9b4887ac98c83d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:46 +0000
Subject: [PATCH 33/48] fix: recognize identityrefs and instance-identifiers
 behind typedefs and leafrefs

---
 src/ncdiff/calculator.py | 14 +++++++++-----
 src/ncdiff/model.py      | 16 ++++++++++++++++
 src/ncdiff/netconf.py    |  5 ++++-
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index e4fb402..b027936 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -403,12 +403,11 @@ class BaseCalculator(object):
 
         if schema_node is None:
             schema_node = self.device.get_schema_node(node)
-        if schema_node.get('datatype') is not None and \
-          (schema_node.get('datatype')[:11] == 'identityref'):
+        datatype = self._get_datatype(schema_node)
+        if datatype is not None and datatype[:11] == 'identityref':
             idref = IdentityRef(self.device, node)
             return idref.default
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif datatype is not None and datatype == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
@@ -500,7 +499,7 @@ class BaseCalculator(object):
             return None
         if schema_node is None:
             schema_node = self.device.get_schema_node(from_node)
-        datatype = schema_node.get('datatype')
+        datatype = self._get_datatype(schema_node)
         if datatype is not None and datatype[:11] == 'identityref':
             ref = IdentityRef(self.device, from_node, to_node=to_node)
             declared = set(to_node.nsmap.values())
@@ -514,6 +513,11 @@ class BaseCalculator(object):
                 self._declare_namespace(to_node, url)
         return ref.converted
 
+    @staticmethod
+    def _get_datatype(schema_node):
+        # behind a typedef or a leafref, the base type is what matters
+        return schema_node.get('basetype') or schema_node.get('datatype')
+
     @staticmethod
     def _declare_namespace(node, url):
         # lxml does not allow changing the namespace mapping of an existing
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index bea08a9..1c60a84 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1301,6 +1301,15 @@ class ModelCompiler(object):
                 datatype = sm.arg
             leaf_node.set('datatype', datatype)
 
+            # Values of these two types contain prefixes, so they have to be
+            # recognized behind typedefs and leafrefs as well.
+            base_type = self.get_base_type(leaf_statement)
+            if (
+                base_type in ('identityref', 'instance-identifier') and
+                base_type != sm.arg
+            ):
+                leaf_node.set('basetype', base_type)
+
             type_values = self.type_values(sm)
             if type_values:
                 leaf_node.set('values', type_values)
@@ -1310,6 +1319,13 @@ class ModelCompiler(object):
                     '|'.join([m.arg for m in sm.search('type')])
                 )
 
+    @staticmethod
+    def get_base_type(leaf_statement):
+        while getattr(leaf_statement, 'i_leafref_ptr', None) is not None:
+            leaf_statement = leaf_statement.i_leafref_ptr[0]
+        sm = leaf_statement.search_one('type')
+        return getattr(getattr(sm, 'i_type_spec', None), 'name', None)
+
     def type_values(self, type_statement):
         if type_statement is None:
             return ''
diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d5cfdff..3eb3915 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1521,7 +1521,10 @@ class NetconfCalculator(BaseCalculator):
         '''
 
         def parse(tag, text, schema_node):
-            anchor = etree.Element(tag, nsmap=node.nsmap)
+            # prefixes of the value might be declared by the key leaf only
+            nsmap = {} if node.find(tag) is None else node.find(tag).nsmap
+            nsmap.update(node.nsmap)
+            anchor = etree.Element(tag, nsmap=nsmap)
             anchor.text = text
             return self._parse_text(anchor, schema_node)
 
-- 
2.43.0


From 373b1187ae1742e56f0bf0bc825784b42f36de9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:20 +0000
Subject: [PATCH 34/48] fix: default values given by typedefs, and identities
 as default values

---
 src/ncdiff/config.py | 74 +++++++++++++++++++++++++++++++++++++++-----
 src/ncdiff/model.py  | 67 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 126 insertions(+), 15 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index aa90ff5..eaa3a35 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -399,27 +399,24 @@ class Config(object):
                 node.remove(child)
 
             # cleanup leaf with default value
-            # TBD: the leaf's type has a default value and the leaf is not
-            # mandatory.
             elif (
                 child_schema_node.get('type') == 'leaf' and
                 child_schema_node.get('is_key') is None and
                 child_schema_node.get('default') is not None and
-                child.text == child_schema_node.get('default')
+                self._get_values([child], child_schema_node) ==
+                self._get_defaults(child_schema_node)
             ):
                 node.remove(child)
 
             # mark leaf-list that has default values
-            # TBD: if the leaf-list's type has a default value and the
-            # leaf-list does not have a "min-elements" statement with a value
-            # greater than or equal to one.
             elif (
                 child_schema_node.get('type') == 'leaf-list' and
                 child_schema_node.get('default') is not None and
                 child.tag not in leaf_list_defaults
             ):
-                defaults = child_schema_node.get('default').split(',')
-                values = [n.text for n in node.findall(child.tag)]
+                defaults = self._get_defaults(child_schema_node)
+                values = self._get_values(node.findall(child.tag),
+                                          child_schema_node)
                 if (
                     child_schema_node.get('ordered-by', 'system') == 'user' and
                     values == defaults or
@@ -436,6 +433,67 @@ class Config(object):
                 for child in node.findall(tag):
                     node.remove(child)
 
+    @staticmethod
+    def _get_defaults(schema_node):
+        '''_get_defaults
+
+        Low-level api: Get default values of a leaf or leaf-list. Identities
+        are in `{url}name` notation.
+
+        Parameters
+        ----------
+
+        schema_node : `Element`
+            A schema node that has default values.
+
+        Returns
+        -------
+
+        list
+            A list of strings.
+        '''
+
+        defaults = [schema_node.get('default')]
+        if schema_node.get('type') == 'leaf-list':
+            defaults = defaults[0].split(',')
+        if schema_node.get('default-ns') is None:
+            return defaults
+        return ['{{{}}}{}'.format(url, default.split(':')[-1])
+                for url, default in zip(
+                    schema_node.get('default-ns').split(), defaults)]
+
+    def _get_values(self, nodes, schema_node):
+        '''_get_values
+
+        Low-level api: Get values of leaf or leaf-list nodes in the same
+        notation as _get_defaults().
+
+        Parameters
+        ----------
+
+        nodes : `list`
+            A list of leaf or leaf-list nodes in config tree.
+
+        schema_node : `Element`
+            The schema node of these nodes.
+
+        Returns
+        -------
+
+        list
+            A list of strings.
+        '''
+
+        if schema_node.get('default-ns') is None:
+            return [node.text for node in nodes]
+        values = []
+        for node in nodes:
+            prefix, _, name = (node.text or '').rpartition(':')
+            urls = {ns[0]: ns[2] for ns in self.device.namespaces}
+            urls.update(node.nsmap)
+            values.append('{{{}}}{}'.format(urls.get(prefix or None), name))
+        return values
+
     def _validate_node(self, node):
         '''_validate_node
 
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 1c60a84..8f2cbad 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1176,9 +1176,7 @@ class ModelCompiler(object):
         sm = child.search_one('status')
         if sm is not None and sm.arg in ['deprecated', 'obsolete']:
             n.set('status', sm.arg)
-        sm = child.search('default')
-        if sm is not None and len(sm) > 0:
-            n.set('default', ",".join(map(lambda x: x.arg, sm)))
+        self.set_default(child, n)
         if child.keyword == 'list':
             sm = child.search_one('key')
             if sm is not None:
@@ -1250,6 +1248,60 @@ class ModelCompiler(object):
                 else:
                     self.depict_a_schema_node(module, n, c, mode=mode)
 
+    def set_default(self, statement, node):
+        texts = [sm.arg for sm in statement.search('default')]
+        values = getattr(statement, 'i_default', None)
+        if not texts and self.is_type_default_in_use(statement):
+            # RFC7950 section 7.6.1 and section 7.7.2
+            typedef = statement.search_one('type').i_typedef
+            texts = [typedef.i_default_str]
+            values = typedef.i_default
+        if not texts:
+            return
+        node.set('default', ",".join(texts))
+
+        # prefixes in identities are meaningful in the YANG module only
+        if not isinstance(values, list):
+            values = [values]
+        type_spec = self.get_type_spec(statement)
+        if (
+            getattr(statement, 'i_leafref_ptr', None) is not None and
+            getattr(type_spec, 'name', None) == 'identityref'
+        ):
+            values = [type_spec.str_to_val([], statement.pos, text,
+                                           statement.i_module)
+                      for text in texts]
+        namespaces = {
+            v.arg: self.module_namespaces[v.i_module.i_modulename]
+            for v in values
+            if getattr(v, 'keyword', None) == 'identity'
+        }
+        names = [text.split(':')[-1] for text in texts]
+        if all(name in namespaces for name in names):
+            node.set('default-ns', ' '.join(namespaces[n] for n in names))
+
+    @staticmethod
+    def is_type_default_in_use(statement):
+        if (
+            statement.keyword not in ['leaf', 'leaf-list'] or
+            hasattr(statement, 'i_is_key')
+        ):
+            return False
+        sm = statement.search_one('type')
+        typedef = getattr(sm, 'i_typedef', None)
+        if getattr(typedef, 'i_default', None) is None:
+            return False
+        if statement.keyword == 'leaf':
+            sm = statement.search_one('mandatory')
+            return sm is None or sm.arg != 'true'
+        else:
+            # leaf-list does not have default values in YANG version 1
+            sm = statement.search_one('min-elements')
+            return (
+                statement.i_module.i_version != '1' and
+                (sm is None or sm.arg == '0')
+            )
+
     @staticmethod
     def set_access(statement, node, mode):
         if (
@@ -1303,7 +1355,8 @@ class ModelCompiler(object):
 
             # Values of these two types contain prefixes, so they have to be
             # recognized behind typedefs and leafrefs as well.
-            base_type = self.get_base_type(leaf_statement)
+            base_type = getattr(self.get_type_spec(leaf_statement), 'name',
+                                None)
             if (
                 base_type in ('identityref', 'instance-identifier') and
                 base_type != sm.arg
@@ -1320,11 +1373,11 @@ class ModelCompiler(object):
                 )
 
     @staticmethod
-    def get_base_type(leaf_statement):
+    def get_type_spec(leaf_statement):
         while getattr(leaf_statement, 'i_leafref_ptr', None) is not None:
             leaf_statement = leaf_statement.i_leafref_ptr[0]
         sm = leaf_statement.search_one('type')
-        return getattr(getattr(sm, 'i_type_spec', None), 'name', None)
+        return getattr(sm, 'i_type_spec', None)
 
     def type_values(self, type_statement):
         if type_statement is None:
@@ -1732,7 +1785,7 @@ class ModelDiff(object):
 
         known_attrib = ['type', 'access', 'mandatory', 'presence', 'values',
                         'key', 'is_key', 'prefix', 'datatype', 'if-feature',
-                        'ordered-by', 'default']
+                        'ordered-by', 'default', 'default-ns']
         for node in element.iter():
             for attrib in node.attrib.keys():
                 if attrib not in known_attrib:
-- 
2.43.0


From 5e499427a2ec6d0bfb3811f32e35c913ba765841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:23 +0000
Subject: [PATCH 35/48] fix: refuse edit attributes on leaf nodes of a config

---
 src/ncdiff/config.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index eaa3a35..14ea243 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -527,11 +527,6 @@ class Config(object):
                         p = self.device.get_xpath(node, instance=False)
                         raise ConfigError("missing key '{}' of the config "
                                           "node {}".format(key, p))
-            for tag in operation_tag, insert_tag, value_tag, key_tag:
-                if node.get(tag):
-                    raise ConfigError("the config node contains invalid "
-                                      "attribute '{}': {}"
-                                      .format(tag, self.device.get_xpath(node)))
 
         for child in node:
 
@@ -541,6 +536,13 @@ class Config(object):
                                   "be found:\n{}"
                                   .format(self.device.get_xpath(child), self))
 
+            for tag in operation_tag, insert_tag, value_tag, key_tag:
+                if child.get(tag):
+                    raise ConfigError("the config node contains invalid "
+                                      "attribute '{}': {}"
+                                      .format(tag,
+                                              self.device.get_xpath(child)))
+
             if len(child) > 0:
                 self._validate_node(child)
 
-- 
2.43.0


From 0ae049dff6e81ae029ba0521f5c17e537e87c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:44 +0000
Subject: [PATCH 36/48] fix: ignore comments and processing instructions in XML
 data

---
 src/ncdiff/__init__.py |  5 +++++
 src/ncdiff/netconf.py  | 15 +++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 8b26785..a7ed549 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -99,6 +99,11 @@ if getattr(transport, 'notify', None):
 def _append(self, element):
     def recreate(parent_src, parent_dst):
         for child_src in parent_src:
+            if not isinstance(child_src.tag, str):
+                # comments and processing instructions are not data
+                if child_src.tail:
+                    parent_dst.text = (parent_dst.text or '') + child_src.tail
+                continue
             child_dst = etree.SubElement(parent_dst,
                                          child_src.tag,
                                          attrib=child_src.attrib,
diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 3eb3915..634cdbd 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -38,15 +38,21 @@ def _copy_element(new_parent, element):
     new_child = etree.SubElement(new_parent, element.tag,
                                  attrib=element.attrib,
                                  nsmap=element.nsmap)
-    if element.text is not None:
-        new_child.text = element.text
+    text = [element.text]
     for subelement in element:
-        _copy_element(new_child, subelement)
+        if isinstance(subelement.tag, str):
+            _copy_element(new_child, subelement)
+        else:
+            # comments and processing instructions are not data
+            text.append(subelement.tail)
+    if any(text):
+        new_child.text = ''.join(t for t in text if t)
 
 
 def _copy_elements(new_parent, elements):
     for element in elements:
-        _copy_element(new_parent, element)
+        if isinstance(element.tag, str):
+            _copy_element(new_parent, element)
 
 
 def _rebuild(element):
@@ -209,6 +215,7 @@ class NetconfCalculator(BaseCalculator):
     def add(self):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
+        etree.strip_tags(ele2, etree.Comment, etree.ProcessingInstruction)
         self.node_add(ele1, ele2)
         return _rebuild(ele1)
 
-- 
2.43.0


From de1dadbce5f4e41e1c028a776e7c914af7859d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:50 +0000
Subject: [PATCH 37/48] fix: refuse unknown values of attribute insert

---
 src/ncdiff/netconf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 634cdbd..fe68d23 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -501,6 +501,14 @@ class NetconfCalculator(BaseCalculator):
         for child_other in node_other.getchildren():
             s_node = self.device.get_schema_node(child_other)
             child_self = peers[child_other]
+            if child_other.get(insert_tag) not in (None, 'first', 'last',
+                                                   'before', 'after'):
+                raise ConfigDeltaError(
+                    "attribute wrong: node {} contains insert '{}'".format(
+                        self.device.get_xpath(child_other),
+                        child_other.get(insert_tag)
+                    )
+                )
             if child_self is None or child_self.getparent() is not node_sum:
                 this_operation = child_other.get(operation_tag, default='merge')
 
-- 
2.43.0


From 9b1118969ccd5a3a1fdd956a553bc96985cb6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:21 +0000
Subject: [PATCH 38/48] fix: documented prefix nc in xpath() and filter() of
 Config

---
 src/ncdiff/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 14ea243..9fc259a 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -305,7 +305,8 @@ class Config(object):
         '''xpath
 
         High-level api: It is a wrapper of xpath method in lxml package. If
-        namespaces is not given, self.ns is used by default.
+        namespaces is not given, self.ns and prefixes of all models are used
+        by default.
 
         Returns
         -------
@@ -317,6 +318,7 @@ class Config(object):
         if 'namespaces' not in kwargs:
             kwargs['namespaces'] = {i[1]: i[2] for i in self.device.namespaces
                                     if i[1] is not None}
+            kwargs['namespaces'].update(self.ns)
         return self.ele.xpath(*args, **kwargs)
 
     def filter(self, *args, **kwargs):
-- 
2.43.0


From 63612fcdc83d4688ae007c4631fea1a170253b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:47 +0000
Subject: [PATCH 39/48] fix: quotation marks and empty values in xpath of
 instances

---
 src/ncdiff/composer.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index 1a92c29..3d04859 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -18,6 +18,17 @@ def split_tag(tag, tag_type):
         return ('', tag)
 
 
+def literal(text):
+    text = text or ''
+    if '"' not in text:
+        return '"{}"'.format(text)
+    if "'" not in text:
+        return "'{}'".format(text)
+    # there is no way to escape quotation marks in XPATH 1.0
+    return 'concat({})'.format(
+        ", '\"', ".join('"{}"'.format(i) for i in text.split('"')))
+
+
 class Tag(object):
     '''Tag
 
@@ -204,7 +215,9 @@ class Composer(object):
                     if n.schema_node is not None:
                         if n.schema_node.get('type') == 'leaf-list' and \
                            not (index == len(nodes)-1 and not instance):
-                            ret += '[text()="{}"]'.format(node.text)
+                            ret += '[{}={}]'.format(
+                                'text()' if node.text else '.',
+                                literal(node.text))
                         elif (
                             n.schema_node.get('type') == 'list' and
                             not (index == len(nodes)-1 and not instance)
@@ -214,8 +227,8 @@ class Composer(object):
                                                              dst=type)[1]
                                 key_node = node.find(key)
                                 if key_node is not None:
-                                    ret += '[{}="{}"]'.format(id,
-                                                              key_node.text)
+                                    ret += '[{}={}]'.format(
+                                        id, literal(key_node.text))
             return ret
 
         nodes = list(reversed(list(self.node.iterancestors())))[1:] + \
-- 
2.43.0


From c83f710bc8023c677fa142d66f5b3a1fceacbcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:02 +0000
Subject: [PATCH 40/48] fix: raise ConfigError for values in namespaces the
 device does not know

---
 src/ncdiff/ref.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 81f73b8..17b3ad4 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -81,9 +81,13 @@ class IdentityRef(object):
 
     def compose_prefixed_id(self, url, id, to_node=None):
         def url_to_name(url, ns):
-            model_name = self.device.convert_ns(url,
-                                                src=Tag.NAMESPACE,
-                                                dst=Tag.NAME)
+            try:
+                model_name = self.device.convert_ns(url,
+                                                    src=Tag.NAMESPACE,
+                                                    dst=Tag.NAME)
+            except ValueError:
+                raise ConfigError("unknown URL '{}' in the node with tag {}"
+                                  .format(url, self.node.tag))
             if url not in ns.values():
                 ns[model_name] = url
             return model_name
@@ -205,9 +209,13 @@ class InstanceIdentifier(IdentityRef):
 
     def compose_prefixed_id(self, url, id, to_node=None):
         def url_to_name(url, ns):
-            model_name = self.device.convert_ns(url,
-                                                src=Tag.NAMESPACE,
-                                                dst=Tag.NAME)
+            try:
+                model_name = self.device.convert_ns(url,
+                                                    src=Tag.NAMESPACE,
+                                                    dst=Tag.NAME)
+            except ValueError:
+                raise ConfigError("unknown URL '{}' in the node with tag {}"
+                                  .format(url, self.node.tag))
             if url not in ns.values():
                 ns[model_name] = url
             return model_name
-- 
2.43.0


From 38fee10de5a0e90b69dcbe9227fee2d5e126e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:36 +0000
Subject: [PATCH 41/48] fix: compare empty text like missing text

---
 src/ncdiff/calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index b027936..8c2abab 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -398,7 +398,7 @@ class BaseCalculator(object):
             node.
         '''
 
-        if node.text is None:
+        if not node.text:
             return None
 
         if schema_node is None:
@@ -437,7 +437,7 @@ class BaseCalculator(object):
             True if text values of two nodes are same, otherwise, False.
         '''
 
-        if node1.text is None and node2.text is None:
+        if not node1.text and not node2.text:
             return True
         return self._parse_text(node1) == self._parse_text(node2)
 
@@ -495,7 +495,7 @@ class BaseCalculator(object):
             has the same meaning at to_node.
         '''
 
-        if from_node.text is None:
+        if not from_node.text:
             return None
         if schema_node is None:
             schema_node = self.device.get_schema_node(from_node)
-- 
2.43.0


From ce18e08e0d08561007a9a60846e963cf93e1da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:14 +0000
Subject: [PATCH 42/48] fix: trim leaves whose default is an empty string

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 9fc259a..1fcbdb3 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -487,7 +487,7 @@ class Config(object):
         '''
 
         if schema_node.get('default-ns') is None:
-            return [node.text for node in nodes]
+            return [node.text or '' for node in nodes]
         values = []
         for node in nodes:
             prefix, _, name = (node.text or '').rpartition(':')
-- 
2.43.0


From d846710c5c66c13381c47c68b149689bdad2a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 43/48] fix: keep the namespaces of default identities with the
 same name apart

---
 src/ncdiff/model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8f2cbad..cd09bf0 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1271,14 +1271,13 @@ class ModelCompiler(object):
             values = [type_spec.str_to_val([], statement.pos, text,
                                            statement.i_module)
                       for text in texts]
-        namespaces = {
-            v.arg: self.module_namespaces[v.i_module.i_modulename]
+        namespaces = [
+            self.module_namespaces[v.i_module.i_modulename]
             for v in values
             if getattr(v, 'keyword', None) == 'identity'
-        }
-        names = [text.split(':')[-1] for text in texts]
-        if all(name in namespaces for name in names):
-            node.set('default-ns', ' '.join(namespaces[n] for n in names))
+        ]
+        if len(namespaces) == len(texts):
+            node.set('default-ns', ' '.join(namespaces))
 
     @staticmethod
     def is_type_default_in_use(statement):
-- 
2.43.0


From d527b2753879f705a459b8133cce2e701af66501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 44/48] fix: leave positions in instance-identifier predicates
 alone

---
 src/ncdiff/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 17b3ad4..e4c3ab9 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -244,7 +244,8 @@ class InstanceIdentifier(IdentityRef):
                 if piece[0] == '[' or \
                    piece[0] == ']' or \
                    piece[0] == '=' or \
-                   piece[0] == '.':
+                   piece[0] == '.' or \
+                   piece[0].isdigit():
                     new_str_list.append((piece[0], piece[1], piece[0]))
                 else:
                     url, id = self.parse_prefixed_id(piece[0], self.node)
-- 
2.43.0


From 1e158b18ca1e950179a9f52d9bdef814b6808505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 45/48] fix: refuse snapshots with empty edit attributes

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 1fcbdb3..98ee9f6 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -539,7 +539,7 @@ class Config(object):
                                   .format(self.device.get_xpath(child), self))
 
             for tag in operation_tag, insert_tag, value_tag, key_tag:
-                if child.get(tag):
+                if child.get(tag) is not None:
                     raise ConfigError("the config node contains invalid "
                                       "attribute '{}': {}"
                                       .format(tag,
-- 
2.43.0


From 7b37a62183d45cd273c64d03c24b4ab65fe03618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 46/48] fix: show all of what was added, deleted or modified in
 a model

---
 src/ncdiff/model.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index cd09bf0..18e4219 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1917,15 +1917,9 @@ class ModelDiff(object):
 
         for child in list(parent):
             diff = child.get('diff')
-            type = child.get('type')
             if diff and diff != msg:
                 parent.remove(child)
-            elif (
-                type == 'container' or
-                type == 'list' or
-                type == 'choice' or
-                type == 'case'
-            ):
+            elif not diff:
                 if ModelDiff.trim(child, msg):
                     parent.remove(child)
         return len(list(parent)) == 0
-- 
2.43.0


From 8db8d5a05aa90c800fae0070668b171c5791dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:36 +0000
Subject: [PATCH 47/48] fix: mark lists, containers and choices that were
 modified in a model

---
 src/ncdiff/model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 18e4219..443563c 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1694,7 +1694,8 @@ class ModelDiff(object):
                     if child.attrib['type'] in ['leaf-list', 'leaf']:
                         ModelDiff.copy_node(ret, child, 'modified')
                     else:
-                        ret_child = ModelDiff.copy_node(ret, child, '')
+                        msg = '' if peer.attrib == child.attrib else 'modified'
+                        ret_child = ModelDiff.copy_node(ret, child, msg)
                         ModelDiff.compare_nodes(peer, child, ret_child)
         for child in node1:
             peer = ModelDiff.get_peer(child.tag, node2)
@@ -1917,9 +1918,9 @@ class ModelDiff(object):
 
         for child in list(parent):
             diff = child.get('diff')
-            if diff and diff != msg:
+            if ModelDiff.trim(child, msg) and diff != msg:
                 parent.remove(child)
-            elif not diff:
-                if ModelDiff.trim(child, msg):
-                    parent.remove(child)
+            elif diff and diff != msg:
+                # it is here because of its descendants
+                del child.attrib['diff']
         return len(list(parent)) == 0
-- 
2.43.0


From eb680802fc17dd57c9a82ceb3027a95dc7f3843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 48/48] fix: report what was below a node that became a leaf

---
 src/ncdiff/model.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 443563c..90f28f1 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1691,12 +1691,9 @@ class ModelDiff(object):
                 if ModelDiff.node_equal(peer, child):
                     continue
                 else:
-                    if child.attrib['type'] in ['leaf-list', 'leaf']:
-                        ModelDiff.copy_node(ret, child, 'modified')
-                    else:
-                        msg = '' if peer.attrib == child.attrib else 'modified'
-                        ret_child = ModelDiff.copy_node(ret, child, msg)
-                        ModelDiff.compare_nodes(peer, child, ret_child)
+                    msg = '' if peer.attrib == child.attrib else 'modified'
+                    ret_child = ModelDiff.copy_node(ret, child, msg)
+                    ModelDiff.compare_nodes(peer, child, ret_child)
         for child in node1:
             peer = ModelDiff.get_peer(child.tag, node2)
             if peer is None:
-- 
2.43.0

