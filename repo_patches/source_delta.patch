From 61936331f25115e49b7175647b0e091295c7296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 01/27] fix: moving a branch left among its siblings must not
 overflow the path step

---
 treebeard/mp_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0401923..adb0c27 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -795,6 +795,10 @@ class MP_NodeManager(NodeManager):
                 last = self.get_last_sibling(target)
                 basenum = last._get_lastpos_in_path()
                 tempnewpath = self.model._get_path(newpath, newdepth, basenum + 2)
+                if len(tempnewpath) > len(newpath):
+                    # there is no room after the last sibling, so use
+                    # position 0 instead, which no node ever has
+                    tempnewpath = self.model._get_path(newpath, newdepth, 0)
                 self._set_newpath_in_branches(oldpath, tempnewpath)
 
         # Optimisation to only move siblings which need moving
-- 
2.43.0


From 1e30fad780c82a6ec12778731e2c8909d4d2063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:35 +0000
Subject: [PATCH 02/27] fix: a depth limit of zero must not mean no limit

---
 treebeard/al_tree.py        | 4 ++--
 treebeard/ltree/__init__.py | 2 +-
 treebeard/ns_tree.py        | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 4c786cf..7e5e292 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -35,7 +35,7 @@ class AL_NodeManager(NodeManager):
             depth = parent.get_depth() + 1
             parent.node_has_children = self.get_children(parent).exists()
             results = [parent]
-            if max_depth:
+            if max_depth is not None:
                 max_depth += parent.get_depth()
         else:
             depth = 1
@@ -45,7 +45,7 @@ class AL_NodeManager(NodeManager):
         return results
 
     def _get_tree_recursively(self, results, parent, depth, max_depth):
-        if max_depth and depth > max_depth:
+        if max_depth is not None and depth > max_depth:
             return results
 
         if parent:
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index fd90305..34afa70 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -154,7 +154,7 @@ class LT_NodeManager(NodeManager):
         if parent:
             filters["path__descendants"] = parent.path
 
-        if max_depth:
+        if max_depth is not None:
             filters["path__depth__lte"] = max_depth + (parent.get_depth() if parent else 0)
 
         return cls.objects.filter(**filters)
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 7a8a8dd..18c63c5 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -104,7 +104,7 @@ class NS_NodeManager(NodeManager):
             filters["tree_id"] = parent.tree_id
             filters["lft__range"] = (parent.lft, parent.rgt - 1)
 
-        if max_depth:
+        if max_depth is not None:
             filters["depth__lte"] = max_depth + (parent.depth if parent else 0)
 
         return cls.objects.filter(**filters)
@@ -510,7 +510,7 @@ class NS_NodeManager(NodeManager):
         If max_depth is set then the count is limited to the specified depth relative
         to the node.
         """
-        if not max_depth:
+        if max_depth is None:
             return (node.rgt - node.lft - 1) / 2
 
         return self.get_descendants(node, max_depth=max_depth).count()
-- 
2.43.0


From 0ee11f73dbad88a3be9ec30822661b5ede4c9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 03/27] fix: previous and next sibling work on sorted adjacency
 list trees

---
 treebeard/al_tree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 7e5e292..1f48757 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -224,9 +224,15 @@ class AL_NodeManager(NodeManager):
         return len(self.get_descendants(node, max_depth=max_depth))
 
     def get_prev_sibling(self, node):
+        if self.model.node_order_by:
+            # sorted trees have no sib_order
+            return super().get_prev_sibling(node)
         return self.get_siblings(node).filter(sib_order__lt=node.sib_order).last()
 
     def get_next_sibling(self, node):
+        if self.model.node_order_by:
+            # sorted trees have no sib_order
+            return super().get_next_sibling(node)
         return self.get_siblings(node).filter(sib_order__gt=node.sib_order).first()
 
     def get_root(self, node):
-- 
2.43.0


From a1b19f3ae2886a1de08edb3badea75f7a0b90b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 04/27] fix: a new ltree root goes after all existing roots

---
 treebeard/ltree/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 34afa70..d306c2b 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -179,7 +179,9 @@ class LT_NodeManager(NodeManager):
 
         if last_root:
             # adding the new root node as the last one
-            newobj.path = generate_path(skip=self.get_root_nodes().values_list("path", flat=True))
+            newobj.path = generate_path(
+                skip=self.get_root_nodes().values_list("path", flat=True), after=last_root.path[-1]
+            )
         else:
             # adding the first root node
             newobj.path = generate_path()
-- 
2.43.0


From 60cdd8979372c1dd744510ff684d3eefe85f22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 05/27] fix: sorted ltree insertion at the end goes after the
 last sibling

---
 treebeard/ltree/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index d306c2b..956803b 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -250,6 +250,8 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), newobj).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "first-sibling":
             insert_before = self.get_first_sibling(target)
         elif pos == "left":
@@ -288,10 +290,14 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "sorted-child":
             insert_before = self.get_sorted_pos_queryset(self.get_children(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_child(target)
             prefix = target.path
         elif pos == "first-sibling":
             insert_before = self.get_siblings(target).first()
-- 
2.43.0


From e33a055b65cb78a02960d39015d2606e3d17a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 06/27] fix: materialized path add and move leave their target
 object up to date

---
 treebeard/mp_tree.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index adb0c27..8d8bb09 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -401,8 +401,9 @@ class MP_NodeManager(NodeManager):
         if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-            target.numchild += 1
-            return self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
+            newobj = self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
+            target.numchild = node.numchild + 1
+            return newobj
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = node.depth + 1
@@ -474,6 +475,7 @@ class MP_NodeManager(NodeManager):
         # saving the instance before returning it
         newobj.path = newpath
         newobj.save(using=self._db)
+        target.refresh_from_db()  # The target's path may have changed
 
         return newobj
 
@@ -487,6 +489,7 @@ class MP_NodeManager(NodeManager):
            node's new position
         """
         pos = self._prepare_pos_var_for_move(pos)
+        original_target = target
 
         # initialize variables and if moving to a child, updates "move to
         # child" to become a "move to sibling" if possible (if it can't
@@ -531,7 +534,7 @@ class MP_NodeManager(NodeManager):
 
         self.update_parent_counts_after_move(oldpath, newpath)
         node.refresh_from_db()  # Node path and depth will have changed
-        target.refresh_from_db()
+        original_target.refresh_from_db()
 
     def update_parent_counts_after_move(self, oldpath, newpath):
         """
@@ -556,7 +559,6 @@ class MP_NodeManager(NodeManager):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
-            parent = target
             newdepth += 1
             if target.is_leaf():
                 # moving as a target's first child
@@ -571,11 +573,6 @@ class MP_NodeManager(NodeManager):
                     "sorted-child": "sorted-sibling",
                 }[pos]
 
-            # this is not for save(), since if needed, will be handled with a
-            # custom UPDATE, this is only here to update django's object,
-            # should be useful in loops
-            parent.numchild += 1
-
         return target, newdepth, siblings, newpos, pos
 
     def get_root_nodes(self):
-- 
2.43.0


From 6ba8669fc804f510a8178069d6b6a877a7eb4f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 07/27] fix: nested sets insertions leave their target object
 up to date

---
 treebeard/ns_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 18c63c5..60b0b6d 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -155,7 +155,6 @@ class NS_NodeManager(NodeManager):
             last_child = self.get_last_child(node)
             last_child._cached_parent_obj = node
             new_sibling = self.add_sibling(last_child, pos, create_kwargs=create_kwargs, instance=instance)
-            node.rgt += 2
             target.rgt = node.rgt + 2  # Update the rgt of the parent object, which may be used again in a loop
             return new_sibling
 
@@ -184,6 +183,7 @@ class NS_NodeManager(NodeManager):
         """Adds a new node as a sibling to the target."""
 
         pos = self._prepare_pos_var_for_add_sibling(pos)
+        original_target = target
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = target.depth
@@ -251,6 +251,7 @@ class NS_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj.save(using=self._db)
+        original_target.refresh_from_db()  # The target's tree params may have changed
 
         return newobj
 
-- 
2.43.0


From 39b839d1b29ab1466e85eecb07bfdb1776c3b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 08/27] fix: adjacency list add and move leave their node and
 target objects up to date

---
 treebeard/al_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 1f48757..377d11d 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -103,6 +103,7 @@ class AL_NodeManager(NodeManager):
             newobj.sib_order = self._get_new_sibling_order(pos, target)
         newobj.parent_id = target.parent_id
         newobj.save(using=self._db)
+        target.refresh_from_db()  # The target's sib_order may have changed
         return newobj
 
     @transaction.atomic
@@ -113,6 +114,7 @@ class AL_NodeManager(NodeManager):
         """
 
         pos = self._prepare_pos_var_for_move(pos)
+        original_target = target
 
         sib_order = None
         parent = None
@@ -151,6 +153,8 @@ class AL_NodeManager(NodeManager):
             node.sib_order = sib_order or self._get_new_sibling_order(pos, target)
 
         node.save(using=self._db)
+        node._clear_cached_attributes()  # The node's depth may have changed
+        original_target.refresh_from_db()  # The target's sib_order may have changed
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
-- 
2.43.0


From b739dc9f924d13a17dfd556a2efc9b883db6676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 09/27] fix: ltree add and move leave a shifted target object
 up to date

---
 treebeard/ltree/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 956803b..c0b94f9 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -263,8 +263,10 @@ class LT_NodeManager(NodeManager):
         elif pos == "last-sibling":
             insert_after = self.get_last_sibling(target)
 
-        newobj.path, _ = self._get_new_path(target.path[:-1], insert_before, insert_after)
+        newobj.path, nodes_moved = self._get_new_path(target.path[:-1], insert_before, insert_after)
         newobj.save(using=self._db)
+        if nodes_moved:
+            target.refresh_from_db()
         return newobj
 
     @transaction.atomic
@@ -333,6 +335,8 @@ class LT_NodeManager(NodeManager):
         # And update the path for the node itself
         node.path = new_path
         node.save()
+        if nodes_moved:
+            target.refresh_from_db()
 
         subtree_moved.send(
             sender=result_class,
-- 
2.43.0


From dbba59be2f4214e52887e4aaa32497cdd5c4f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 10/27] fix: ltree child additions use the parent's stored path

---
 treebeard/ltree/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index c0b94f9..838ad52 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -202,8 +202,8 @@ class LT_NodeManager(NodeManager):
         obj = self.__class__(**create_kwargs)
         ```
         """
-        # Lock parent row
-        self.tree_model.objects.filter(pk=target.pk).select_for_update().only("pk").get()
+        # Lock parent row, and take its path from there: the target's own path may be out of date
+        target.path = self.tree_model.objects.filter(pk=target.pk).select_for_update().only("path").get().path
         if self.model.node_order_by and not target.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-- 
2.43.0


From 699ae1679b0d78a5d65068242719df9f024d75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 11/27] fix: queryset deletion and tree repair are
 all-or-nothing

---
 treebeard/mp_tree.py | 2 ++
 treebeard/ns_tree.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 8d8bb09..7cb161b 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -29,6 +29,7 @@ class MP_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @transaction.atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
@@ -122,6 +123,7 @@ class MP_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
+    @transaction.atomic
     def fix_tree(self, fix_paths=False, parent=None):
         """
         Solves some problems that can appear when transactions are not used and
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 60b0b6d..286cb21 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -27,6 +27,7 @@ class NS_NodeQuerySet(models.query.QuerySet):
     Needed only for the customized delete method.
     """
 
+    @transaction.atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
-- 
2.43.0


From 7ef3502d9e2aa8cd1fe07590813f70b19ad0e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 12/27] fix: bulk creation checks path limits and builds
 children under their real parents

MP load_bulk(bulk_create=True) could build paths longer than the column or
with over-long steps when a level was full or too deep, and on sorted models
it built the children of first-level nodes from paths that later insertions
had already shifted.
---
 treebeard/mp_tree.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 7cb161b..102c71c 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -672,6 +672,7 @@ class MP_NodeManager(NodeManager):
         added = []
         bulk_data = prepare_dumpdata_for_loading(self.model, data=bulk_data, keep_ids=keep_ids)
         children_to_create = []
+        max_length = self.model._meta.get_field("path").max_length
 
         def _build_children(parent_node, children) -> None:
             child_depth = parent_node.depth + 1
@@ -680,6 +681,8 @@ class MP_NodeManager(NodeManager):
                 child.object.depth = child_depth
                 child.object.numchild = len(child.children)
                 child.object.path = self.model._get_path(parent_node.path, child_depth, i + 1)
+                if len(child.object.path) > min(len(parent_node.path) + self.model.steplen, max_length):
+                    raise PathOverflow(_(f"Path Overflow from: '{parent_node.path}'"))
 
                 children_to_create.append(child)
 
@@ -696,7 +699,12 @@ class MP_NodeManager(NodeManager):
             )
             save_m2m(node_obj, deserialized_obj)
             added.append(node_obj.pk)
-            _build_children(node_obj, deserialized_obj.children)
+
+        for deserialized_obj in bulk_data:
+            if self.model.node_order_by:
+                # Nodes added later may have been sorted before this one
+                deserialized_obj.object.refresh_from_db(fields=["path"])
+            _build_children(deserialized_obj.object, deserialized_obj.children)
 
         # Bulk create descendants
         created = self.bulk_create([obj.object for obj in children_to_create], batch_size=batch_size)
-- 
2.43.0


From cdab074af26173393a06b80c0c052b65c504ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 13/27] fix: annotated lists with a depth limit work for all
 tree types

get_annotated_list(max_depth=...) filtered on a depth column, which raised an
error for adjacency list and ltree models, and a limit of zero was treated as
no limit.
---
 treebeard/models.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/treebeard/models.py b/treebeard/models.py
index e3059a6..6240095 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -430,9 +430,11 @@ class NodeManager(models.Manager):
 
             Optionally limit to specified depth
         """
-        qs = self.get_tree(parent)
-        if max_depth:
-            qs = qs.filter(depth__lte=max_depth)
+        if parent and max_depth is not None:
+            max_depth -= parent.get_depth()  # get_tree() counts from the parent
+            if max_depth < 0:
+                return []
+        qs = self.get_tree(parent, max_depth=max_depth)
         return self.get_annotated_list_qs(qs)
 
     @transaction.atomic
-- 
2.43.0


From 8e5887e021bcb84532ad2cedd49f0bd0c6ab2347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:11 +0000
Subject: [PATCH 14/27] fix: adjacency list move forms refuse a destination in
 the node's own branch

The choices left the node and its descendants out, but validation accepted
them, so saving stored the edited data and then failed on the move.
---
 treebeard/forms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 723b752..e978478 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -114,7 +114,9 @@ class MoveNodeForm(forms.ModelForm):
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.all()
+            self.fields["treebeard_ref_node"].queryset = opts.model.objects.exclude(
+                pk__in=[node.pk for node in descendants]
+            )
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From bcc7ba0d19cb599259c6875a4c69e1aeeaa2e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 15/27] fix: refuse materialized path moves that are too deep
 for the path column

Moving a branch below a deep node stored paths longer than path.max_length
(SQLite) or failed with a database error; it now raises PathOverflow, as
adding a node there does.
---
 treebeard/mp_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 102c71c..8811be5 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -871,6 +871,10 @@ class MP_NodeManager(NodeManager):
 
         model = self.tree_model
         queryset = model.objects.filter(path__startswith=oldpath)
+        if len(newpath) > len(oldpath):
+            room = model._meta.get_field("path").max_length - (len(newpath) - len(oldpath))
+            if queryset.alias(path_length=Length("path")).filter(path_length__gt=room).exists():
+                raise PathOverflow(_("The new location is too deep in the tree, try increasing the path.max_length property"))
         update_count = queryset.update(**update_kwargs)
         if update_count > 0:
             path_updated.send(sender=model, old_path=oldpath, new_path=newpath, using=queryset.db)
-- 
2.43.0


From 92dfb7fc17f17d5f2181fb8583d890d8da3ea7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:13 +0000
Subject: [PATCH 16/27] fix: compare nodes by primary key across model classes

In a tree of multi-table child classes the same node can be held as an object of
the base class and as one of the child class; these do not compare equal, so adding
or moving next to such a node took the wrong branch and misplaced nodes.
---
 treebeard/al_tree.py        | 12 ++++++------
 treebeard/forms.py          |  7 +++----
 treebeard/ltree/__init__.py |  4 ++--
 treebeard/mp_tree.py        | 14 +++++++-------
 treebeard/ns_tree.py        | 22 +++++++++++-----------
 treebeard/utils.py          |  8 ++++++++
 6 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 377d11d..275f11d 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -7,7 +7,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import check_create_args, is_same_node
 
 
 class AL_NodeManager(NodeManager):
@@ -120,7 +120,7 @@ class AL_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if is_same_node(node, target):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -140,10 +140,10 @@ class AL_NodeManager(NodeManager):
         if target.is_descendant_of(node):
             raise InvalidMoveToDescendant(_("Can't move node to a descendant."))
 
-        if node == target and (
+        if is_same_node(node, target) and (
             (pos == "left")
-            or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
-            or (pos == "first-sibling" and target == self.get_first_sibling(target))
+            or (pos in ("right", "last-sibling") and is_same_node(target, self.get_last_sibling(target)))
+            or (pos == "first-sibling" and is_same_node(target, self.get_first_sibling(target)))
         ):
             # special cases, not actually moving the node, so nothing to do
             return
@@ -273,7 +273,7 @@ class AL_NodeManager(NodeManager):
         return ancestors
 
     def _is_target_pos_the_last_sibling(self, pos, target):
-        return pos == "last-sibling" or (pos == "right" and target == self.get_last_sibling(target))
+        return pos == "last-sibling" or (pos == "right" and is_same_node(target, self.get_last_sibling(target)))
 
     def _make_hole_and_get_sibling_order(self, pos, target_node):
         siblings = self.get_siblings(target_node)
diff --git a/treebeard/forms.py b/treebeard/forms.py
index e978478..32d8859 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -105,18 +105,17 @@ class MoveNodeForm(forms.ModelForm):
         if issubclass(opts.model, AL_Node):
             choices = opts.model.objects.get_tree()
             descendants = opts.model.objects.get_descendants(instance, include_self=True) if instance else []
+            excluded_pks = [node.pk for node in descendants]
             field = self.fields["treebeard_ref_node"]
             self.fields["treebeard_ref_node"]._choices = [("", "--------")] + [
                 (field.prepare_value(node), field.label_from_instance(node))
                 for node in choices
-                if node not in descendants
+                if node.pk not in excluded_pks
             ]
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.exclude(
-                pk__in=[node.pk for node in descendants]
-            )
+            self.fields["treebeard_ref_node"].queryset = opts.model.objects.exclude(pk__in=excluded_pks)
             return
 
         queryset = opts.model.objects.get_tree()
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 838ad52..e33eca4 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -15,7 +15,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import check_create_args, is_same_node
 
 from .fields import Ltree2Text, PathField, PathValue, Subpath, Text2LTree
 
@@ -278,7 +278,7 @@ class LT_NodeManager(NodeManager):
         pos = self._prepare_pos_var_for_move(pos)
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if is_same_node(target, node):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
         if target.is_descendant_of(node):
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 8811be5..c16dec3 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -16,7 +16,7 @@ from treebeard.deprecation import RemovedInTreebeard8Warning
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
 from treebeard.numconv import NumConv
-from treebeard.utils import check_create_args, prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import check_create_args, is_same_node, prepare_dumpdata_for_loading, save_m2m
 
 path_updated = Signal()
 nodes_deleted = Signal()
@@ -517,15 +517,15 @@ class MP_NodeManager(NodeManager):
 
         # Handle special cases where nothing needs to be done
         if newdepth == node.get_depth():
-            if pos == "first-sibling" and node == self.get_first_sibling(target):
+            if pos == "first-sibling" and is_same_node(node, self.get_first_sibling(target)):
                 return
 
-            if pos == "last-sibling" and node == self.get_last_sibling(target):
+            if pos == "last-sibling" and is_same_node(node, self.get_last_sibling(target)):
                 return
 
-        if node == target and (
+        if is_same_node(node, target) and (
             # Moving a node to left/right of itself is a noop
-            pos == "left" or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
+            pos == "left" or (pos in ("right", "last-sibling") and is_same_node(target, self.get_last_sibling(target)))
         ):
             return
 
@@ -557,7 +557,7 @@ class MP_NodeManager(NodeManager):
         newpos = None
         siblings = []
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if is_same_node(target, node):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -771,7 +771,7 @@ class MP_NodeManager(NodeManager):
 
         :returns: A tuple containing the old path and the new path.
         """
-        if (pos == "last-sibling") or (pos == "right" and target == self.get_last_sibling(target)):
+        if (pos == "last-sibling") or (pos == "right" and is_same_node(target, self.get_last_sibling(target))):
             # easy, the last node
             last = self.get_last_sibling(target)
             newpath = last._inc_path()
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 286cb21..9c74d8a 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -12,7 +12,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import check_create_args, is_same_node
 
 gap_altered = Signal()
 tree_ids_incremented = Signal()
@@ -223,7 +223,7 @@ class NS_NodeManager(NodeManager):
                 siblings = self.get_siblings(target)
 
                 if pos == "right":
-                    if target == siblings.last():
+                    if is_same_node(target, siblings.last()):
                         pos = "last-sibling"
                     else:
                         pos = "left"
@@ -232,10 +232,10 @@ class NS_NodeManager(NodeManager):
                             if found:
                                 target = node
                                 break
-                            elif node == target:
+                            elif is_same_node(node, target):
                                 found = True
                 if pos == "left":
-                    if target == siblings.first():
+                    if is_same_node(target, siblings.first()):
                         pos = "first-sibling"
                 if pos == "first-sibling":
                     target = siblings.first()
@@ -270,7 +270,7 @@ class NS_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if is_same_node(node, target):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -286,10 +286,10 @@ class NS_NodeManager(NodeManager):
         if target.is_descendant_of(node):
             raise InvalidMoveToDescendant(_("Can't move node to a descendant."))
 
-        if node == target and (
+        if is_same_node(node, target) and (
             (pos == "left")
-            or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
-            or (pos == "first-sibling" and target == self.get_first_sibling(target))
+            or (pos in ("right", "last-sibling") and is_same_node(target, self.get_last_sibling(target)))
+            or (pos == "first-sibling" and is_same_node(target, self.get_first_sibling(target)))
         ):
             # special cases, not actually moving the node so nothing to do
             return
@@ -305,7 +305,7 @@ class NS_NodeManager(NodeManager):
             siblings = self.get_siblings(target)
 
             if pos == "right":
-                if target == siblings.last():
+                if is_same_node(target, siblings.last()):
                     pos = "last-sibling"
                 else:
                     pos = "left"
@@ -314,10 +314,10 @@ class NS_NodeManager(NodeManager):
                         if found:
                             target = sib
                             break
-                        elif sib == target:
+                        elif is_same_node(sib, target):
                             found = True
             if pos == "left":
-                if target == siblings.first():
+                if is_same_node(target, siblings.first()):
                     pos = "first-sibling"
             if pos == "first-sibling":
                 target = siblings.first()
diff --git a/treebeard/utils.py b/treebeard/utils.py
index b2575bf..ad200a0 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -31,6 +31,14 @@ def prepare_dumpdata_for_loading(
     return output
 
 
+def is_same_node(node: models.Model, other: models.Model | None) -> bool:
+    """
+    Whether two objects represent the same node of a tree. Unlike ``==``, this also holds for objects of
+    different classes, which are possible in a tree when multi-table inheritance is in use.
+    """
+    return node == other or (other is not None and node.pk is not None and node.pk == other.pk)
+
+
 def save_m2m(node: models.Model, deserialized_obj: DeserializedObject):
     """
     Saves m2m relationships stored on a DeserializedObject.
-- 
2.43.0


From 690da1ba2a6edd7ffa297f301fdd7d14f473eabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:26 +0000
Subject: [PATCH 17/27] fix: adjacency list child additions lock their parent

---
 treebeard/al_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 275f11d..21d4b3e 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -84,6 +84,8 @@ class AL_NodeManager(NodeManager):
         except AttributeError:
             pass
         if not self.model.node_order_by:
+            # Lock the parent, so that concurrent additions can't get the same position
+            list(self.tree_model.objects.select_for_update().filter(pk=target.pk).values_list("pk"))
             max = (
                 self.model.objects.tree_model.objects.filter(parent=target).aggregate(max=Max("sib_order"))["max"] or 0
             )
-- 
2.43.0


From 21e574d023a59df3b394e1f84495ba9b8e804d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 18/27] fix: nested sets child additions drop the parent's own
 cached parent

---
 treebeard/ns_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 9c74d8a..031a916 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -157,6 +157,7 @@ class NS_NodeManager(NodeManager):
             last_child._cached_parent_obj = node
             new_sibling = self.add_sibling(last_child, pos, create_kwargs=create_kwargs, instance=instance)
             target.rgt = node.rgt + 2  # Update the rgt of the parent object, which may be used again in a loop
+            target._clear_cached_attributes()  # The cached parent's rgt has changed too
             return new_sibling
 
         # we're adding the first child of this node
@@ -170,6 +171,7 @@ class NS_NodeManager(NodeManager):
 
         # this is just to update the cache
         target.rgt = node.rgt + 2
+        target._clear_cached_attributes()
 
         newobj._cached_parent_obj = target
 
-- 
2.43.0


From f91de49cd5373a36c30cb2cef49d45f806251af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 19/27] fix: adjacency list parent lookup through a proxy of a
 multi-table child

---
 treebeard/al_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 21d4b3e..28851fd 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -249,7 +249,7 @@ class AL_NodeManager(NodeManager):
 
     def get_parent(self, node, update=False):
         """:returns: the parent node of the supplied node object."""
-        if self.model._meta.proxy_for_model:
+        if self.tree_model._meta.proxy_for_model:
             # the current node is a proxy model; the returned parent
             # should be the same proxy model, so we need to explicitly
             # fetch it as an instance of that model rather than simply
-- 
2.43.0


From 33c361250bcbc682b10e533d96f564fde3859bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 20/27] fix: adjacency list move forms accept every node they
 offer as reference

The form of a multi-table child class offers all nodes of the tree, but only
accepted nodes of the child class.
---
 treebeard/forms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 32d8859..ff025e5 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -115,7 +115,8 @@ class MoveNodeForm(forms.ModelForm):
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.exclude(pk__in=excluded_pks)
+            queryset = opts.model.objects.tree_model.objects.exclude(pk__in=excluded_pks)
+            self.fields["treebeard_ref_node"].queryset = queryset
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From c9ed63597c838d347c6cf821e2b063f8f76861ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 21/27] fix: nested sets delete a reversed queryset without
 corrupting intervals

---
 treebeard/ns_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 031a916..4dd670b 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -41,7 +41,9 @@ class NS_NodeQuerySet(models.query.QuerySet):
         last_node = None
         toremove = []
         ranges = []
-        for node in self.order_by("tree_id", "lft").values("tree_id", "lft", "rgt").prefetch_related(None).iterator():
+        # Sorted here, because the direction of a reversed queryset would also apply to order_by()
+        nodes = self.order_by().values("tree_id", "lft", "rgt").prefetch_related(None)
+        for node in sorted(nodes.iterator(), key=operator.itemgetter("tree_id", "lft")):
             if (
                 last_node
                 and last_node["tree_id"] == node["tree_id"]
-- 
2.43.0


From 47a61deeebc765a4bac8165d78a79cbdb71ff1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 22/27] fix: materialized path and ltree delete querysets that
 follow relations

---
 treebeard/ltree/__init__.py | 2 +-
 treebeard/mp_tree.py        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index e33eca4..38966b5 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -106,7 +106,7 @@ class LT_NodeQuerySet(models.query.QuerySet):
         """
         # Construct the minimal list of nodes that need deleting along with their descendants
         paths_to_remove = set()
-        for node in self.order_by("path").only("path").prefetch_related(None).iterator():
+        for node in self.order_by("path").only("path").select_related(None).prefetch_related(None).iterator():
             found = False
             for depth in range(1, len(node.path)):
                 path = node.path[0:depth]
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index c16dec3..2f8973c 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -42,7 +42,8 @@ class MP_NodeQuerySet(models.query.QuerySet):
         # to be deleted and remove nodes from the list if an ancestor is
         # already getting removed, since that would be redundant
         removed = {}
-        for node in self.order_by("depth", "path").only("path", "depth", "numchild").prefetch_related(None).iterator():
+        nodes = self.order_by("depth", "path").only("path", "depth", "numchild")
+        for node in nodes.select_related(None).prefetch_related(None).iterator():
             found = False
             for depth in range(1, int(len(node.path) / node.steplen)):
                 path = node._get_basepath(node.path, depth)
-- 
2.43.0


From 0bfd4d678caf2482304c65b067f2b4e167a0e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 23/27] fix: ltree child additions work with managers that
 follow relations

---
 treebeard/ltree/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 38966b5..0f41f2f 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -203,7 +203,7 @@ class LT_NodeManager(NodeManager):
         ```
         """
         # Lock parent row, and take its path from there: the target's own path may be out of date
-        target.path = self.tree_model.objects.filter(pk=target.pk).select_for_update().only("path").get().path
+        target.path = self.tree_model.objects.filter(pk=target.pk).select_for_update().values_list("path", flat=True).get()
         if self.model.node_order_by and not target.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-- 
2.43.0


From b30665f2f89be93aa9f72f9b165e121dd192092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 24/27] fix: tree operations work with managers that prefetch
 or follow relations

---
 treebeard/al_tree.py        |  3 ++-
 treebeard/ltree/__init__.py | 12 +++++++-----
 treebeard/models.py         |  4 ++--
 treebeard/mp_tree.py        | 13 ++++++-------
 treebeard/ns_tree.py        |  7 ++++---
 5 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 28851fd..9149ab7 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -85,7 +85,8 @@ class AL_NodeManager(NodeManager):
             pass
         if not self.model.node_order_by:
             # Lock the parent, so that concurrent additions can't get the same position
-            list(self.tree_model.objects.select_for_update().filter(pk=target.pk).values_list("pk"))
+            parents = self.tree_model.objects.select_for_update().filter(pk=target.pk).prefetch_related(None)
+            list(parents.values_list("pk"))
             max = (
                 self.model.objects.tree_model.objects.filter(parent=target).aggregate(max=Max("sib_order"))["max"] or 0
             )
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 0f41f2f..02c538c 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -180,7 +180,8 @@ class LT_NodeManager(NodeManager):
         if last_root:
             # adding the new root node as the last one
             newobj.path = generate_path(
-                skip=self.get_root_nodes().values_list("path", flat=True), after=last_root.path[-1]
+                skip=self.get_root_nodes().prefetch_related(None).values_list("path", flat=True),
+                after=last_root.path[-1],
             )
         else:
             # adding the first root node
@@ -203,7 +204,8 @@ class LT_NodeManager(NodeManager):
         ```
         """
         # Lock parent row, and take its path from there: the target's own path may be out of date
-        target.path = self.tree_model.objects.filter(pk=target.pk).select_for_update().values_list("path", flat=True).get()
+        parents = self.tree_model.objects.filter(pk=target.pk).select_for_update().prefetch_related(None)
+        target.path = parents.values_list("path", flat=True).get()
         if self.model.node_order_by and not target.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
@@ -220,7 +222,7 @@ class LT_NodeManager(NodeManager):
             # adding the new child as the last one
             newobj.path = generate_path(
                 prefix=target.path,
-                skip=self.get_children(target).values_list("path", flat=True),
+                skip=self.get_children(target).prefetch_related(None).values_list("path", flat=True),
                 after=self.get_children(target).last().path[-1],
             )
 
@@ -387,7 +389,7 @@ class LT_NodeManager(NodeManager):
             qset = qset.filter(path__descendants=parent.path)
         ret, lnk = [], {}
         pk_field = cls._meta.pk.attname
-        for pyobj in serializers.serialize("python", qset.iterator()):
+        for pyobj in serializers.serialize("python", qset.prefetch_related(None).iterator()):
             # django's serializer stores the attributes in 'fields'
             fields = pyobj["fields"]
             path = PathValue(fields["path"])
@@ -427,7 +429,7 @@ class LT_NodeManager(NodeManager):
                 prefix=prefix,
                 before=insert_before_path,
                 after=insert_after_path,
-                skip=siblings.values_list("path", flat=True),
+                skip=siblings.prefetch_related(None).values_list("path", flat=True),
             )
         except InvalidLabelConstraints:
             # We failed to find a path within the available range. That means we need to move the insert_before
diff --git a/treebeard/models.py b/treebeard/models.py
index 6240095..c53f7ee 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -585,7 +585,7 @@ class NodeManager(models.Manager):
             The node's previous sibling, or None if it was the leftmost
             sibling.
         """
-        ids = list(self.get_siblings(node).values_list("pk", flat=True))
+        ids = list(self.get_siblings(node).prefetch_related(None).values_list("pk", flat=True))
         idx = ids.index(node.pk)
         if idx > 0:
             return self.get_siblings(node).get(pk=ids[idx - 1])
@@ -597,7 +597,7 @@ class NodeManager(models.Manager):
             The next node's sibling, or None if it was the rightmost
             sibling.
         """
-        ids = list(self.get_siblings(node).values_list("pk", flat=True))
+        ids = list(self.get_siblings(node).prefetch_related(None).values_list("pk", flat=True))
         idx = ids.index(node.pk)
         if idx < len(ids) - 1:
             return self.get_siblings(node).get(pk=ids[idx + 1])
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 2f8973c..67e5155 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -183,9 +183,8 @@ class MP_NodeManager(NodeManager):
                 while children_to_fix:
                     parent_path, depth = children_to_fix.pop(0)
 
-                    children = cls.objects.filter(path__startswith=parent_path, depth=depth).values(
-                        "pk", "path", "depth", "numchild"
-                    )
+                    children = cls.objects.filter(path__startswith=parent_path, depth=depth).prefetch_related(None)
+                    children = children.values("pk", "path", "depth", "numchild")
 
                     desired_sequence = children.order_by(*(cls.node_order_by or ["path"]))
 
@@ -265,7 +264,7 @@ class MP_NodeManager(NodeManager):
             # Our friend MySQL doesn't support update queries that use a select from the same table
             # So we have to update each object individually
             to_update = []
-            for node in qs.iterator():
+            for node in qs.prefetch_related(None).iterator():
                 node.numchild = node.real_numchild
                 to_update.append(node)
 
@@ -306,7 +305,7 @@ class MP_NodeManager(NodeManager):
 
         evil_chars, bad_steplen, orphans = [], [], []
         wrong_depth, wrong_numchild = [], []
-        for node in qs.iterator():
+        for node in qs.prefetch_related(None).iterator():
             found_error = False
             for char in node.path:
                 if char not in cls.alphabet:
@@ -400,7 +399,7 @@ class MP_NodeManager(NodeManager):
         :raise PathOverflow: when no more child nodes can be added
         """
         # Lock the parent row
-        node = target.__class__.objects.select_for_update().get(pk=target.pk)
+        node = target.__class__.objects.select_related(None).select_for_update().get(pk=target.pk)
         if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
@@ -731,7 +730,7 @@ class MP_NodeManager(NodeManager):
             qset = qset.filter(path__startswith=parent.path)
         ret, lnk = [], {}
         pk_field = cls._meta.pk.attname
-        for pyobj in serializers.serialize("python", qset.iterator()):
+        for pyobj in serializers.serialize("python", qset.prefetch_related(None).iterator()):
             # django's serializer stores the attributes in 'fields'
             fields = pyobj["fields"]
             path = fields["path"]
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 4dd670b..f2fdfb5 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -148,7 +148,7 @@ class NS_NodeManager(NodeManager):
         # Fetch the parent afresh from the database and lock the row
         # This guards against race conditions and state drift when adding multiple children,
         # and also ensures that we're working with the base tree model in the case of inherited models
-        node = target.__class__.objects.filter(pk=target.pk).select_for_update().get()
+        node = target.__class__.objects.filter(pk=target.pk).select_related(None).select_for_update().get()
         if not node.is_leaf():
             # there are child nodes, delegate insertion to add_sibling
             if node.node_order_by:
@@ -393,7 +393,7 @@ class NS_NodeManager(NodeManager):
         qset = self.get_tree(parent)
         ret, lnk = [], {}
         pk_field = self.model._meta.pk.attname
-        for pyobj in qset.iterator():
+        for pyobj in qset.prefetch_related(None).iterator():
             serobj = serializers.serialize("python", [pyobj])[0]
             # django's serializer stores the attributes in 'fields'
             fields = serobj["fields"]
@@ -455,7 +455,8 @@ class NS_NodeManager(NodeManager):
         reversed_lft_rgt, overlapping_nodes, duplicate_tree_ids, wrong_depth = [], [], [], []
 
         # Iterate over the nodes in order of tree_id and lft
-        qs = qs.order_by("tree_id", "lft").values("pk", "tree_id", "lft", "rgt", "depth").iterator()
+        qs = qs.order_by("tree_id", "lft").values("pk", "tree_id", "lft", "rgt", "depth")
+        qs = qs.prefetch_related(None).iterator()
 
         # Consider each tree individually
         for tree_id, nodes in groupby(qs, operator.itemgetter("tree_id")):
-- 
2.43.0


From 3139ec5080e7dca8bbefd66c2122439b2416199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 25/27] fix: siblings of a node whose parent has the primary
 key zero

---
 treebeard/al_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 9149ab7..ab8da9d 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -207,7 +207,7 @@ class AL_NodeManager(NodeManager):
         :returns: A queryset of all the node's siblings, including the node
             itself.
         """
-        if node.parent_id:
+        if node.parent_id is not None:
             return self.tree_model.objects.filter(parent_id=node.parent_id)
         return self.get_root_nodes()
 
-- 
2.43.0


From 988bac7f8e0abccce221e529fd01d64dad1d8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 26/27] fix: ltree nodes loaded without their path load it when
 it is used

---
 treebeard/ltree/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/ltree/fields.py b/treebeard/ltree/fields.py
index 7c3575d..9f51df3 100644
--- a/treebeard/ltree/fields.py
+++ b/treebeard/ltree/fields.py
@@ -45,6 +45,10 @@ class PathValueProxy:
         if instance is None:
             return self
 
+        if self.field_name not in instance.__dict__:
+            # deferred, load it the way any other field does
+            instance.refresh_from_db(fields=[self.field_name])
+
         value = instance.__dict__[self.field_name]
 
         if value is None:
-- 
2.43.0


From 8bedd313c6f5e6398613a21ee1e52000876b2141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 27/27] fix: the move form places a node whose descending order
 field was edited

---
 treebeard/forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index ff025e5..ff471ac 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -168,7 +168,7 @@ class MoveNodeForm(forms.ModelForm):
         treebeard_fields = {
             "treebeard_ref_node",
             "treebeard_position",
-            *(manager.tree_model.node_order_by or []),
+            *(field.removeprefix("-") for field in manager.tree_model.node_order_by or []),
         }
         if not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
-- 
2.43.0

