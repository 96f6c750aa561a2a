From 39dbfb3da549bebce1020362cf2ef5ad52b49d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 01/30] fix: order spine versions lexicographically by (major,
 minor, patch)

Each relational operator required every component to compare the same way, so
3.8 < 3.8.2 and 4.0.1 >= 3.8 were both False.
---
 spine_json_lib/data/spine_version_type.py | 32 +++++++++++------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index 2f707ca..c84d8f6 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -48,40 +48,40 @@ class SpineVersion(object):
         # operator <
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major < _other.major
-            and self.minor < _other.minor
-            and self.patch < _other.patch
+        return (self.major, self.minor, self.patch) < (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __gt__(self, other):
         # operator >
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major > _other.major
-            and self.minor > _other.minor
-            and self.patch > _other.patch
+        return (self.major, self.minor, self.patch) > (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __le__(self, other):
         # operator <=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major <= _other.major
-            and self.minor <= _other.minor
-            and self.patch <= _other.patch
+        return (self.major, self.minor, self.patch) <= (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __ge__(self, other):
         # operator >=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major >= _other.major
-            and self.minor >= _other.minor
-            and self.patch >= _other.patch
+        return (self.major, self.minor, self.patch) >= (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __cmp__(self, other):
-- 
2.43.0


From a49235e15a03db5c1e06c56f16ff1232fdee5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 02/30] fix: reject malformed spine versions such as '3.8.-5'

The pattern left '.' unescaped and was not anchored at the end, so strings
int() happens to accept ('3.8.-5', '3.8. 5', '3.8_0') passed as versions.
---
 spine_json_lib/data/spine_version_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index c84d8f6..1eb2282 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -1,7 +1,7 @@
 import re
 from typing import Tuple
 
-REGEX_TO_MATCH = re.compile(r"^\d+.\d+")
+REGEX_TO_MATCH = re.compile(r"^\d+\.\d+(\.\d+)?\Z")
 
 
 class SpineVersion(object):
-- 
2.43.0


From 7434c7a8a5748d8d57f97ad9cd7a85891f8380c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 03/30] fix: sequential_order_of_execution lists every node
 once, after its parents

A node still waiting for another parent was treated as executed, so with edges
h->c, p->c, p->d, c->d the node d came before c and p was listed twice.
---
 spine_json_lib/graph/dagraph.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 040ac62..cee61ba 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -215,15 +215,14 @@ class DAGraph(object):
 
         def visit(node: SpamNode) -> None:
             visited.add(node.id)
-
-            for parent in node.parents:
-                if parent not in visited:
-                    visit(self.get_node(parent))
-
             result_nodes.append(node.id)
-            for child in node.children:
-                if child not in visited:
-                    visit(self.get_node(child))
+
+            for child_id, child in node.children.items():
+                # A child is only ready once all the nodes it depends on were executed
+                if child_id not in visited and all(
+                    parent_id in visited for parent_id in child.parents
+                ):
+                    visit(child)
 
         for head_id in self.get_heads_id():
             visit(self.get_node(head_id))
-- 
2.43.0


From 9daefaa6d17fd44622ab1d188fad285d8358491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:48 +0000
Subject: [PATCH 04/30] fix: make graph nodes hashable

SpamNode.__hash__ returned the string id, so hash(node) always raised TypeError.
---
 spine_json_lib/graph/spamnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/graph/spamnode.py b/spine_json_lib/graph/spamnode.py
index f287590..f4d205c 100644
--- a/spine_json_lib/graph/spamnode.py
+++ b/spine_json_lib/graph/spamnode.py
@@ -48,7 +48,7 @@ class SpamNode(object):
 
     def __hash__(self):
         """ Used for finding the collision chain for this node."""
-        return self._id
+        return hash(self._id)
 
     @property
     def id(self) -> str:
-- 
2.43.0


From fc93770357eb524fbbe2d4483836554e53361fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:48 +0000
Subject: [PATCH 05/30] fix: compare the root node type by value when looking
 for unconnected nodes

'is not' on strings reported root nodes as unconnected whenever their type was
an equal but distinct string object, as any type read from a file is.
---
 spine_json_lib/graph/graph_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/graph/graph_validator.py b/spine_json_lib/graph/graph_validator.py
index c90794c..6fd8a5c 100644
--- a/spine_json_lib/graph/graph_validator.py
+++ b/spine_json_lib/graph/graph_validator.py
@@ -72,7 +72,7 @@ class GraphValidator(object):
             # Check if there are any head and it is not a root of the UCGraph
             if (
                 graph.get_node(head_id).node_type
-                is not UCNodeType.INPUT_ROOT_NODE_TYPE.name
+                != UCNodeType.INPUT_ROOT_NODE_TYPE.name
             ):
                 unconnected_nodes.append(head_id)
                 continue
-- 
2.43.0


From b3eea99a56c33ddb0822d5180457a94df4159ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:48 +0000
Subject: [PATCH 06/30] fix: allow writing json files to a path without a
 directory

os.makedirs('') raised FileNotFoundError for a bare file name.
---
 spine_json_lib/spine_animation_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 8cabeea..6b17604 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -218,7 +218,7 @@ class SpineAnimationEditor(object):
 
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(output_json, "w") as outfile:
@@ -254,7 +254,7 @@ class SpineAnimationEditor(object):
 
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(images_json, "w") as outfile:
-- 
2.43.0


From a6f1221badf2244c67027909ee3510f73078ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:48 +0000
Subject: [PATCH 07/30] fix: clean animations that show no slot at all

functools.reduce over an animation without any visible slot or slot timeline
raised TypeError.
---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index c192c4c..e88af30 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -295,7 +295,7 @@ class SpineAnimationData(SpineData):
             visible_slots |= anim_visible_slots
 
             l_attachments_used |= functools.reduce(
-                (lambda x, y: x | y), anim_used_attachments.values()
+                (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
         invisible_slots = slots_set - visible_slots
-- 
2.43.0


From 2427c69eae8c0a60378b65d94b1790861d5f0492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:48 +0000
Subject: [PATCH 08/30] fix: keep bone scale when cleaning after
 scale_animation

clean_animation rebuilt the bones from the graph made at load time, undoing any
scale_animation done before. Bones are never removed, so they stay as they are.
---
 spine_json_lib/spine_animation_editor.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 6b17604..7b0ebbf 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -6,7 +6,6 @@ from collections import namedtuple
 from typing import List, TypeVar
 
 from spine_json_lib.data.constants import SPINE_3_8_VERSION
-from spine_json_lib.data.data_types.bone import Bone
 from spine_json_lib.data.data_types.ik import Ik
 from spine_json_lib.data.data_types.skin import SkinPath
 from spine_json_lib.data.data_types.slot import Slot
@@ -159,7 +158,6 @@ class SpineAnimationEditor(object):
 
         # Convert spine graph back to json data
         output_json_data = self.spine_graph.graph.to_json_data(SpineGraphParser)
-        self.spine_anim_data.data.bones = [Bone(b) for b in output_json_data["bones"]]
         self.spine_anim_data.data.slots = [Slot(s) for s in output_json_data["slots"]]
         self.spine_anim_data.data.ik = [Ik(i) for i in output_json_data["ik"]]
         self.spine_anim_data.data.set_default_values(self.spine_version)
-- 
2.43.0


From 96f66f38e57a700582e7735f4bfa1d2bbd2ab0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:48 +0000
Subject: [PATCH 09/30] fix: scale the root bone only once

A root bone whose own transform mode ignores the parent scale was scaled twice.
---
 spine_json_lib/spine_animation_editor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 7b0ebbf..c213965 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -202,6 +202,8 @@ class SpineAnimationEditor(object):
         # attributes as these don't inherit scale from parent roots
         spine_data = self.spine_anim_data.data
         for bone in spine_data.bones:
+            if bone.name == "root":
+                continue
 
             if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:
                 bone.scale(scaleX=scaleX, scaleY=scaleY)
-- 
2.43.0


From 00b4cca938c81bcf126ace983e496891f39509af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:23 +0000
Subject: [PATCH 10/30] fix: keep draw order entries whose offset is 0

A slot listed with offset 0 is pinned to its position, while unlisted slots fill
the gaps left by the others: dropping the entry changed the draw order (slots
A,B,C,D with A +3, B 0 went from C,B,D,A to B,C,D,A).
---
 spine_json_lib/data/data_types/draworder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/draworder.py b/spine_json_lib/data/data_types/draworder.py
index f3aabde..c04e6ef 100644
--- a/spine_json_lib/data/data_types/draworder.py
+++ b/spine_json_lib/data/data_types/draworder.py
@@ -82,7 +82,7 @@ class DrawOrderTimeline(SpineData):
         return [
             offset
             for offset in adjusted_draw_order_offsets.values()
-            if offset.slot not in slots_to_be_removed and offset.offset != 0
+            if offset.slot not in slots_to_be_removed
         ]
 
     def remove_offsets_with_ids(self, slots_ids, original_slots):
-- 
2.43.0


From 0a885c38c81948cf0ca7d4261feb583d6d5a986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:23 +0000
Subject: [PATCH 11/30] fix: strip only the trailing type suffix when mapping
 graph ids to names

Names containing e.g. '_SLOT' themselves were mangled, so the removed slot was
not cleaned from skins and animations.
---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index f925f82..f54221a 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -331,4 +331,4 @@ class SpineGraphParser(IGraphParser):
     @staticmethod
     def _to_base_id(node_type_name, graph_id):
         _suffix = "_{}".format(NodeType[node_type_name].name)
-        return graph_id.replace(_suffix, "")
+        return graph_id[: -len(_suffix)]
-- 
2.43.0


From 21ac7f09a1a6b5429775c88781f7be4239078078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:23 +0000
Subject: [PATCH 12/30] fix: never remove by name a mesh kept because its slot
 is visible

Attachments are removed by name from every skin. A mesh kept in a visible slot
was still removed if another skin or slot had an unused attachment with the same
name, leaving linked meshes without their parent mesh.
---
 spine_json_lib/data/spine_anim_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index e88af30..3c42d03 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -301,6 +301,7 @@ class SpineAnimationData(SpineData):
         invisible_slots = slots_set - visible_slots
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
+        meshes_to_keep: FrozenSet[Any] = frozenset([])
 
         # Only not visible slots and the ones not being used can be erased
         for skin in self.skins:
@@ -314,7 +315,8 @@ class SpineAnimationData(SpineData):
                             isinstance(attachment_data[attachment_id], SkinMesh)
                             and slot_id not in invisible_slots
                         ):
+                            meshes_to_keep |= frozenset([attachment_id])
                             continue
                         attachments_to_remove |= frozenset([attachment_id])
 
-        return invisible_slots, attachments_to_remove
+        return invisible_slots, attachments_to_remove - meshes_to_keep
-- 
2.43.0


From b902e75fd34649941a93dd8c74ace6f0f86f5ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:23 +0000
Subject: [PATCH 13/30] fix: an empty slot timeline does not hide its slot

A slot shown in the setup pose was removed when its only timeline had no keyframe.
---
 spine_json_lib/data/data_types/slot.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/spine_json_lib/data/data_types/slot.py b/spine_json_lib/data/data_types/slot.py
index 286fffa..e93664d 100644
--- a/spine_json_lib/data/data_types/slot.py
+++ b/spine_json_lib/data/data_types/slot.py
@@ -87,14 +87,9 @@ class SlotTimeline(SpineData):
         return (
             not self.color
             and not self.twoColor
-            and (
-                len(self.attachment) == 0
-                or (
-                    len(self.attachment) == 1
-                    and self.attachment[0].is_empty()
-                    and self.attachment[0].time == 0
-                )
-            )
+            and len(self.attachment) == 1
+            and self.attachment[0].is_empty()
+            and self.attachment[0].time == 0
         )
 
     def get_used_attachments(self):
-- 
2.43.0


From cc80a1d9fb2b0caf39638b41b40eb34e0e0378d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:49 +0000
Subject: [PATCH 14/30] fix: name unnamed attachments by their key when erasing
 skins

Attachments without 'name' or 'path' use their key as image. erase_skins ignored
such regions and reported None for such meshes.
---
 spine_json_lib/data/spine_anim_data.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 3c42d03..925d0d8 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -169,12 +169,11 @@ class SpineAnimationData(SpineData):
         for attachment_id, attachment in skin_to_remove.attachments.items():
             for slot_id, slot_data in attachment.items():
                 if isinstance(slot_data, SkinAttachment):
-                    image_path = slot_data.path or slot_data.name
-                    if image_path is not None:
-                        removed_attachments.setdefault(attachment_id, {})
-                        removed_attachments[attachment_id][slot_id] = image_path
+                    image_path = slot_data.path or slot_data.name or slot_id
+                    removed_attachments.setdefault(attachment_id, {})
+                    removed_attachments[attachment_id][slot_id] = image_path
                 elif isinstance(slot_data, (SkinMesh, SkinLinkedMesh)):
-                    mesh_image_path = slot_data.path or slot_data.name
+                    mesh_image_path = slot_data.path or slot_data.name or slot_id
                     removed_images.append(mesh_image_path)
                 elif hasattr(slot_data, "path") and slot_data.path is not None:
                     removed_images.append(slot_data.path)
-- 
2.43.0


From ee89868f0839e454bdb5d9f02176574116d85cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:49 +0000
Subject: [PATCH 15/30] fix: keep images_references in step with the
 attachments that remain

References were dropped only when their graph node lost every parent, which
missed images whose attachment shares its name with one in a remaining slot, and
left the scale of a removed slot on images still used by another.
---
 spine_json_lib/spine_animation_editor.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index c213965..d1bd844 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -96,7 +96,7 @@ class SpineAnimationEditor(object):
             removed_data = [], []
         else:
             removed_data = self.clean_animation()
-        self._clean_images_references(images_ids=images_to_remove)
+        self._clean_images_references()
 
         return removed_data, images_to_remove
 
@@ -181,10 +181,10 @@ class SpineAnimationEditor(object):
             )
         )
 
-        images_node = self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
+        self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
 
-        # Remove reference to region attachments in images json file
-        self._clean_images_references(images_ids=images_node)
+        # Remove references to images of the attachments erased
+        self._clean_images_references()
         return list(slots_to_remove), attachments_to_remove
 
     def remove_slots(self, slots_ids, original_slots):
@@ -278,18 +278,18 @@ class SpineAnimationEditor(object):
                 )
             )
 
-    def _clean_images_references(self, images_ids: List[str]) -> None:
-        copy_json = copy.deepcopy(self.images_references)
-        removed_images = []
-        for img_id, img_abs_path in self.images_references.items():
-            if img_id in images_ids:
-                removed_images.append(img_id)
-                del copy_json[img_id]
+    def _clean_images_references(self) -> None:
+        images_references = self.get_images_references()
+        removed_images = [
+            img_id
+            for img_id in self.images_references
+            if img_id not in images_references
+        ]
 
         if removed_images:
             print("Removed images: {}".format(removed_images))
 
-        self.images_references = copy_json
+        self.images_references = images_references
 
     def _clean_slots_in_skins(self, slots_ids: List[str]) -> None:
         skins_data = copy.deepcopy(self.spine_anim_data.data.skins)
-- 
2.43.0


From 9114c262739408878f79bcc19d3ab1768a70e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:41 +0000
Subject: [PATCH 16/30] fix: copy the parent mesh of a linked mesh when erasing
 its skin

A linked mesh names its source mesh with 'parent', which may differ from its own
key: erase_skins raised KeyError or copied the wrong mesh. The tint of the linked
mesh was replaced by the one of the erased mesh.
---
 spine_json_lib/data/spine_anim_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 925d0d8..f1318ad 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -153,13 +153,14 @@ class SpineAnimationData(SpineData):
                         # we need to copy the Mesh information to this LinkedMesh
                         skin_removed_slot_mesh = skin_to_remove.attachments[
                             attachment_id
-                        ][slot_id]
+                        ][slot_data.parent]
 
                         copied_mesh = copy.deepcopy(skin_removed_slot_mesh)
                         copied_mesh.name = slot_data.name
                         copied_mesh.path = slot_data.path
                         copied_mesh.width = slot_data.width
                         copied_mesh.height = slot_data.height
+                        copied_mesh.color = slot_data.color
 
                         attachment[slot_id] = copied_mesh
 
-- 
2.43.0


From 485f81cdc0613b9e8658f1a1da492e8374358c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:41 +0000
Subject: [PATCH 17/30] fix: load point, clipping, boundingbox and region
 attachments

Their classes did not declare the 'type' attribute that selects them, so every
skin with such an attachment was rejected, as were regions with explicit type.
Only regions and meshes have an image.
---
 spine_json_lib/data/data_types/skin.py   |  7 ++++++-
 spine_json_lib/spine_animation_editor.py | 11 +++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/data/data_types/skin.py b/spine_json_lib/data/data_types/skin.py
index 0b91870..5942705 100644
--- a/spine_json_lib/data/data_types/skin.py
+++ b/spine_json_lib/data/data_types/skin.py
@@ -18,6 +18,7 @@ SKIN_ATTACHMENTS_TYPES = [
     MESH_TYPE,
     PATH_TYPE,
     SLOT_TYPE,
+    LINKED_MESH_TYPE,
     POINT_TYPE,
     CLIPPING_TYPE,
     BOUNDING_BOX_TYPE,
@@ -44,7 +45,7 @@ def parse_skin_attachment_data(attachments):
                 result[attach_id][slot_id] = SkinClipping(values=skin_data)
             elif skin_data_type == BOUNDING_BOX_TYPE:
                 result[attach_id][slot_id] = SkinBoundingBox(values=skin_data)
-            elif skin_data_type is None:
+            elif skin_data_type is None or skin_data_type == REGION_TYPE:
                 result[attach_id][slot_id] = SkinAttachment(values=skin_data)
             else:
                 raise ValueError(
@@ -98,6 +99,7 @@ class SkinAttachment(SpineData):
         self.name = values.get("name")
         self.path = values.get("path")
         self.color: str = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinAttachment, self).__init__(values)
 
@@ -184,6 +186,7 @@ class SkinBoundingBox(SpineData):
         self.vertexCount: int = values.get("vertexCount")
         self.vertices: List[float] = values.get("vertices")
         self.color: str = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinBoundingBox, self).__init__(values)
 
@@ -199,6 +202,7 @@ class SkinPoint(SpineData):
         self.y = values.get("y")
         self.rotation = values.get("rotation")
         self.color = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinPoint, self).__init__(values)
 
@@ -214,5 +218,6 @@ class SkinClipping(SpineData):
         self.vertexCount: int = values.get("vertexCount")
         self.vertices: List[float] = values.get("vertices")
         self.color: str = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinClipping, self).__init__(values)
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index d1bd844..d4cf262 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -7,7 +7,11 @@ from typing import List, TypeVar
 
 from spine_json_lib.data.constants import SPINE_3_8_VERSION
 from spine_json_lib.data.data_types.ik import Ik
-from spine_json_lib.data.data_types.skin import SkinPath
+from spine_json_lib.data.data_types.skin import (
+    SkinAttachment,
+    SkinLinkedMesh,
+    SkinMesh,
+)
 from spine_json_lib.data.data_types.slot import Slot
 from spine_json_lib.data.spine_anim_data import JsonSpineAnimationData
 from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
@@ -239,7 +243,10 @@ class SpineAnimationEditor(object):
                 scale = self.spine_anim_data.data.get_slot_custom_scale(slot=slot_data)
                 for sub_part_key in skin_data[part_name]:
                     skin_sub_part_instance = skin_data[part_name][sub_part_key]
-                    if not isinstance(skin_sub_part_instance, SkinPath):
+                    if isinstance(
+                        skin_sub_part_instance,
+                        (SkinAttachment, SkinMesh, SkinLinkedMesh),
+                    ):
                         relative_path = (
                             skin_sub_part_instance.path
                             or skin_sub_part_instance.name
-- 
2.43.0


From 4b951da500a493b77543fd3d11db69d25737a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:41 +0000
Subject: [PATCH 18/30] fix: use the spine defaults of transform and path
 constraints

Attributes equal to their default are not written. Spine reads a missing
transform scaleX/scaleY as 0 and a missing path spacing as 0, so an explicit 1
was lost.
---
 spine_json_lib/data/data_types/path.py      | 6 +++---
 spine_json_lib/data/data_types/transform.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index 079e733..e6afc19 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -11,7 +11,7 @@ class Path(SpineData):
         "rotateMode": "",
         "rotation": 0,
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "skin": False,
@@ -39,10 +39,10 @@ class Path(SpineData):
 
 
 class PathTimeline(SpineData):
-    DEFAULT_VALUES = {"position": 0, "spacing": 1, "rotateMix": 1, "translateMix": 1}
+    DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
     SPINE_3_8_DEFAULT_VALUES = {
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "curve": [],
diff --git a/spine_json_lib/data/data_types/transform.py b/spine_json_lib/data/data_types/transform.py
index e039d71..a6b4017 100644
--- a/spine_json_lib/data/data_types/transform.py
+++ b/spine_json_lib/data/data_types/transform.py
@@ -12,8 +12,8 @@ class Transform(SpineData):
         "rotation": 0,
         "x": 0,
         "y": 0,
-        "scaleX": 1.0,
-        "scaleY": 1.0,
+        "scaleX": 0,
+        "scaleY": 0,
         "shearX": 0,
         "shearY": 0,
     }
-- 
2.43.0


From f6a569b6fcb8bbbfedf7cc322da3fffacc3e3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:41 +0000
Subject: [PATCH 19/30] fix: keep event keyframe values that override the event
 with 0 or ''

A keyframe without int, float or string takes the value of its event, not 0 or
'', so these values cannot be dropped when written explicitly.
---
 spine_json_lib/data/data_types/events.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spine_json_lib/data/data_types/events.py b/spine_json_lib/data/data_types/events.py
index 276b60d..8144575 100644
--- a/spine_json_lib/data/data_types/events.py
+++ b/spine_json_lib/data/data_types/events.py
@@ -18,13 +18,10 @@ class Events(SpineData):
 
 
 class EventTimeline(SpineData):
-    DEFAULT_VALUES = {"name": "", "int": 0, "float": 0, "string": ""}
+    DEFAULT_VALUES = {"name": ""}
     SPINE_3_8_DEFAULT_VALUES = {
         "time": 0,
         "name": "",
-        "int": 0,
-        "float": 0,
-        "string": "",
         "audio": "",
         "volume": 1,
         "balance": 0,
-- 
2.43.0


From 94d7fbe9b883b55e9dc465c2d01f6b7919fdd1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:06 +0000
Subject: [PATCH 20/30] fix: keep slots that path constraints and clippings
 refer to

Removing the target slot of a path constraint or the end slot of a clipping left
a reference to a missing slot, which Spine refuses to load.
---
 spine_json_lib/data/spine_anim_data.py   | 19 ++++++++++++++++-
 spine_json_lib/spine_animation_editor.py |  5 ++++-
 spine_json_lib/spine_graph_container.py  | 26 +++++++++++++++++++-----
 3 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index f1318ad..75e7c2c 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -12,6 +12,7 @@ from spine_json_lib.data.data_types.skin import (
     Skin38,
     SkinLinkedMesh,
     SkinAttachment,
+    SkinClipping,
     SkinMesh,
 )
 from spine_json_lib.data.data_types.slot import Slot, SlotTimeline
@@ -218,6 +219,22 @@ class SpineAnimationData(SpineData):
 
         return no_attachment_slot
 
+    def get_referenced_slots(self) -> FrozenSet[str]:
+        """
+        Return the ids of the slots that path constraints or clippings refer to
+        """
+        path_targets = frozenset([path.target for path in self.path])
+        clipping_ends = frozenset(
+            [
+                attachment.end
+                for skin in self.skins
+                for attachments in skin.attachments.values()
+                for attachment in attachments.values()
+                if isinstance(attachment, SkinClipping)
+            ]
+        )
+        return path_targets | clipping_ends
+
     def get_visible_slots_and_attachments(
         self, anim_slots, visible_slots, alpha_zero_slots, no_attachment_slots
     ):
@@ -298,7 +315,7 @@ class SpineAnimationData(SpineData):
                 (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
-        invisible_slots = slots_set - visible_slots
+        invisible_slots = slots_set - visible_slots - self.get_referenced_slots()
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
         meshes_to_keep: FrozenSet[Any] = frozenset([])
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index d4cf262..a2cb5ae 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -157,7 +157,10 @@ class SpineAnimationEditor(object):
 
         # Removing leaves that are slots, which means
         # they don't have any attachment as children and can be removed from animation
-        leaf_slots = self.spine_graph.remove_leafs_of_type(NodeType.SLOT.name)
+        leaf_slots = self.spine_graph.remove_leafs_of_type(
+            NodeType.SLOT.name,
+            ids_to_keep=self.spine_anim_data.data.get_referenced_slots(),
+        )
         slots_to_remove = list(slots_to_remove | frozenset(leaf_slots))
 
         # Convert spine graph back to json data
diff --git a/spine_json_lib/spine_graph_container.py b/spine_json_lib/spine_graph_container.py
index e5886cf..d6c2d8c 100644
--- a/spine_json_lib/spine_graph_container.py
+++ b/spine_json_lib/spine_graph_container.py
@@ -56,13 +56,25 @@ class SpineGraphContainer(object):
 
         return leaf_slots
 
-    def remove_leafs_of_type(self, type_name) -> List[str]:
+    def remove_leafs_of_type(self, type_name, ids_to_keep=frozenset([])) -> List[str]:
         """
-        Removing from graph every node leaves of type @type_name recursively
-        and return the list of ids
+        Removing from graph every node leaves of type @type_name recursively,
+        except the ones in @ids_to_keep, and return the list of ids
         """
+        graph_ids_to_keep = frozenset(
+            [
+                SpineGraphParser._to_graph_id(
+                    node_type_name=type_name, node_base_id=base_id
+                )
+                for base_id in ids_to_keep
+            ]
+        )
         nodes_removed = []
-        leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+        leaf_nodes = [
+            s_id
+            for s_id in self.get_leafs_of_type(node_type=type_name)
+            if s_id not in graph_ids_to_keep
+        ]
         while leaf_nodes:
             nodes_removed += [
                 SpineGraphParser._to_base_id(
@@ -72,7 +84,11 @@ class SpineGraphContainer(object):
                 for s_id in leaf_nodes
             ]
 
-            leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+            leaf_nodes = [
+                s_id
+                for s_id in self.get_leafs_of_type(node_type=type_name)
+                if s_id not in graph_ids_to_keep
+            ]
         return nodes_removed
 
     def remove_attachment(self, attachment_id: str) -> SpamNode:
-- 
2.43.0


From d64966a6973814a57c20f51307b649aa7ba32cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:32 +0000
Subject: [PATCH 21/30] fix: clear the setup attachment of slots whose
 attachment is removed

Plain attachment ids were compared with graph ids, which never match, so a kept
slot still named its removed attachment.
---
 spine_json_lib/spine_animation_editor.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index a2cb5ae..5fd4c6c 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -336,12 +336,11 @@ class SpineAnimationEditor(object):
         copy_slots_data = copy.deepcopy(self.spine_anim_data.data.slots)
         for slot_idx, slot_data in enumerate(self.spine_anim_data.data.slots):
             default_attachment_id = slot_data.get("attachment")
-            if default_attachment_id is not None:
-                attachment_graph_id = SpineGraphParser._to_graph_id(
-                    NodeType.ATTACHMENT.name, default_attachment_id
-                )
-                if attachment_graph_id in attachments_ids:
-                    copy_slots_data[slot_idx].attachment = None
+            if (
+                default_attachment_id is not None
+                and default_attachment_id in attachments_ids
+            ):
+                copy_slots_data[slot_idx].attachment = None
 
         self.spine_anim_data.data.slots = copy_slots_data
 
-- 
2.43.0


From b94f5e068816fd780425e77a46b5d618925dd6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:32 +0000
Subject: [PATCH 22/30] fix: keep linked meshes of the default skin working
 when it is erased

A linked mesh that names no skin takes its mesh from the default skin.
---
 spine_json_lib/data/spine_anim_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 75e7c2c..6a5ddbf 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -21,6 +21,8 @@ from spine_json_lib.data.data_types.base_type import SpineData
 from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
 from spine_json_lib.data.spine_version_type import SpineVersion
 
+# Skin of the parent mesh of linked meshes that do not name one
+DEFAULT_SKIN_NAME = "default"
 
 # Mypy forward declarations
 JsonSpineAnimationDataType = TypeVar(
@@ -147,7 +149,7 @@ class SpineAnimationData(SpineData):
                 for slot_id, slot_data in attachment_data.items():
                     if (
                         isinstance(slot_data, SkinLinkedMesh)
-                        and slot_data.skin == skin_name
+                        and (slot_data.skin or DEFAULT_SKIN_NAME) == skin_name
                     ):
 
                         # In case of a LinkedMesh linked to a mesh existing into the skin we want to remove
-- 
2.43.0


From d956bf8d9339c0f049322fb381578c7c32382447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:55 +0000
Subject: [PATCH 23/30] fix: leave the document untouched when an erase request
 names something missing

The animations or skins found so far were already erased when the error was
raised, without any clean up, so images_references no longer matched the data.
---
 spine_json_lib/spine_animation_editor.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 5fd4c6c..bde633c 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -67,9 +67,17 @@ class SpineAnimationEditor(object):
         return SpineAnimationEditor(json_data=spine_json_data)
 
     def erase_skins(self, skins_to_erase, is_safe_mode=False):
+        for skin_name in skins_to_erase:
+            if self.spine_anim_data.data.get_skin(skin_name) is None:
+                raise SpineJsonEditorError(
+                    message="Trying to remove skin with name {} but was not found".format(
+                        skin_name
+                    )
+                )
+
         images_skins_refs = []
         skin_attachments_removed = {}
-        for skin_name in skins_to_erase:
+        for skin_name in dict.fromkeys(skins_to_erase):
             (
                 skin_removed_images,
                 attachments_removed,
@@ -274,12 +282,11 @@ class SpineAnimationEditor(object):
         self, animations_to_erase: List[str], strict_mode: bool
     ) -> None:
         # Erasing animation from the json
-        not_found_animations = []
-        for animation_name in animations_to_erase:
-            if animation_name in self.spine_anim_data.data.animations:
-                del self.spine_anim_data.data.animations[animation_name]
-            else:
-                not_found_animations.append(animation_name)
+        not_found_animations = [
+            animation_name
+            for animation_name in animations_to_erase
+            if animation_name not in self.spine_anim_data.data.animations
+        ]
 
         if not_found_animations and strict_mode:
             raise ValueError(
@@ -288,6 +295,9 @@ class SpineAnimationEditor(object):
                 )
             )
 
+        for animation_name in animations_to_erase:
+            self.spine_anim_data.data.animations.pop(animation_name, None)
+
     def _clean_images_references(self) -> None:
         images_references = self.get_images_references()
         removed_images = [
-- 
2.43.0


From 7e685dd5817de47f8d98a9bb29975fd6c6024679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:19 +0000
Subject: [PATCH 24/30] fix: clear removed attachments from the keyframes of
 the remaining slots

An attachment keyed only while its slot is invisible was removed from the
skins, but stayed in the slot's timeline as a reference to nothing.
---
 spine_json_lib/spine_animation_editor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index bde633c..006605a 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -210,6 +210,7 @@ class SpineAnimationEditor(object):
     def remove_attachments(self, attachments_ids):
         self._clean_attachments_in_skins(attachment_ids=attachments_ids)
         self._clean_attachments_in_slots(attachments_ids=attachments_ids)
+        self._clean_attachments_in_animations(attachments_ids=attachments_ids)
 
     def scale_animation(self, scaleX, scaleY):
         # To scale the animation we have to scale the root bone,
@@ -354,6 +355,15 @@ class SpineAnimationEditor(object):
 
         self.spine_anim_data.data.slots = copy_slots_data
 
+    def _clean_attachments_in_animations(self, attachments_ids: List[str]) -> None:
+        """ Cleaning attachments set by the keyframes of slots """
+
+        for animation in self.spine_anim_data.data.animations.values():
+            for slot_timeline in animation.slots.values():
+                for keyframe in slot_timeline.attachment:
+                    if keyframe.name in attachments_ids:
+                        keyframe.name = None
+
     def _clean_slots_in_animations(self, slots_ids: List[str]) -> None:
         for anim_id, anim_data in self.spine_anim_data.data.animations.items():
             anim_data_slots = copy.deepcopy(anim_data.slots)
-- 
2.43.0


From 67bbb76a8eb119c4bad46584f2c5ebead4fe5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:45 +0000
Subject: [PATCH 25/30] fix: report images of erased skins by the images of the
 remaining ones

The graph also has image nodes for attachments without an image (points,
paths, ...), so an image was not reported when such an attachment of a
remaining skin happened to have its name.
---
 spine_json_lib/spine_animation_editor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 006605a..7e7c8fe 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -95,14 +95,10 @@ class SpineAnimationEditor(object):
                     images_skins_refs.append(attachment_path)
 
         # Check which attachments are not being used in the remaining skins
-        images_to_remove = []
-
-        for img in images_skins_refs:
-            image_graph_id = SpineGraphParser._to_graph_id(
-                node_type_name=NodeType.IMAGE.name, node_base_id=img
-            )
-            if not self.spine_graph.graph.get_node(image_graph_id):
-                images_to_remove.append(img)
+        images_in_use = self.get_images_references()
+        images_to_remove = [
+            img for img in images_skins_refs if img not in images_in_use
+        ]
 
         if is_safe_mode:
             removed_data = [], []
-- 
2.43.0


From dad10945c3f660f9cc91c9187ffe1df126ab858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:48 +0000
Subject: [PATCH 26/30] fix: load documents without slots, skins or bones, as
 exported when all are removed

---
 spine_json_lib/data/spine_anim_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 6a5ddbf..f1e157f 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -64,10 +64,10 @@ class SpineAnimationData(SpineData):
         _data = copy.deepcopy(data)
         del _data["skeleton"]
 
-        self.bones: List[Bone] = [Bone(value) for value in _data["bones"]]
-        self.slots: List[Slot] = [Slot(value) for value in _data["slots"]]
+        self.bones: List[Bone] = [Bone(value) for value in _data.get("bones", [])]
+        self.slots: List[Slot] = [Slot(value) for value in _data.get("slots", [])]
         self.skins: Union[Dict[str, Any], List[Skin38]] = [
-            Skin38(value) for value in _data["skins"]
+            Skin38(value) for value in _data.get("skins", [])
         ]
 
         self.events: Dict[str, Events] = {
-- 
2.43.0


From c053e342a2c25541bcd123817d6b8bf90455bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 27/30] fix: clear references to attachments that only the
 erased skins had

---
 spine_json_lib/data/spine_anim_data.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index f1e157f..639b737 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -189,6 +189,20 @@ class SpineAnimationData(SpineData):
             if anim_data.deform and skin_name in anim_data.deform.keys():
                 del anim_data.deform[skin_name]
 
+        # Clear references to attachments that no remaining skin has for their slot
+        for slot_id, attachments in skin_to_remove.attachments.items():
+            lost_attachments = frozenset(attachments).difference(
+                *[skin.attachments.get(slot_id, {}) for skin in skins]
+            )
+            slot = self.get_slot(slot_id)
+            if slot is not None and slot.attachment in lost_attachments:
+                slot.attachment = None
+            for anim_data in self.animations.values():
+                if slot_id in anim_data.slots:
+                    for keyframe in anim_data.slots[slot_id].attachment:
+                        if keyframe.name in lost_attachments:
+                            keyframe.name = None
+
         self.skins = skins
 
         return removed_images, removed_attachments
-- 
2.43.0


From 601128e0c5bb84865cbc066983117d8077ed287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 28/30] fix: build the graph from the current data before
 cleaning, so that cleaning twice does not restore attachments

---
 spine_json_lib/spine_animation_editor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 7e7c8fe..f55abb2 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -148,6 +148,10 @@ class SpineAnimationEditor(object):
         - We cannot remove BONES because it affect the weight on meshes and the vertices
         information saved in the binary.
         """
+        # The graph keeps copies of the slots and constraints, so it has to be built
+        # again from the current data
+        self.spine_graph = SpineGraphContainer(self.spine_anim_data.to_json_data())
+
         # Save slots before removing. Needed to recalculate offsets when removing
         # slots in a drawOrder array.
         slots_before_removing = copy.deepcopy(self.spine_anim_data.data.slots)
-- 
2.43.0


From 927e06d0e03ce4d629098d699e95f1d2f14a0160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 29/30] fix: a bone without parent is not connected to a bone
 named None

---
 spine_json_lib/deserializer/spine_nodes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index f54221a..61bc12f 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -186,12 +186,14 @@ class SpineGraphParser(IGraphParser):
             node_data=node_data.node_data,
         )
         # Getting optional parent from bone
-        parent_id = SpineGraphParser._to_graph_id(
-            node_type_name=NodeType.BONE.name, node_base_id=bone_data.get("parent")
-        )
-        parent = graph.get_node(parent_id)
-        if parent:
-            graph.add_edge(parent.id, node_data.node_id)
+        parent_name = bone_data.get("parent")
+        if parent_name is not None:
+            parent_id = SpineGraphParser._to_graph_id(
+                node_type_name=NodeType.BONE.name, node_base_id=parent_name
+            )
+            parent = graph.get_node(parent_id)
+            if parent:
+                graph.add_edge(parent.id, node_data.node_id)
         return node_data
 
     @staticmethod
-- 
2.43.0


From 6b7065c3eac25bee31f9a8cccf8d2db3a10a650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 30/30] fix: circular bone parents made loading hang

---
 spine_json_lib/data/spine_anim_data.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 639b737..9821ec8 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -18,7 +18,10 @@ from spine_json_lib.data.data_types.skin import (
 from spine_json_lib.data.data_types.slot import Slot, SlotTimeline
 from spine_json_lib.data.data_types.transform import Transform
 from spine_json_lib.data.data_types.base_type import SpineData
-from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
+from spine_json_lib.data.spine_exceptions import (
+    SpineJsonEditorError,
+    SpineParsingException,
+)
 from spine_json_lib.data.spine_version_type import SpineVersion
 
 # Skin of the parent mesh of linked meshes that do not name one
@@ -103,7 +106,13 @@ class SpineAnimationData(SpineData):
         iter_bone = bone
 
         # This will iterate every bone up in tree looking for 'scale' until we found the root
+        visited_bones = set()
         while iter_bone.name != "root":
+            if iter_bone.name in visited_bones:
+                raise SpineParsingException(
+                    message="Bone {} is its own ancestor".format(iter_bone.name)
+                )
+            visited_bones.add(iter_bone.name)
             b_scale = iter_bone.get_scale_in_name()
             result_scale *= b_scale
             iter_bone = self.get_bone(iter_bone.parent)
-- 
2.43.0

