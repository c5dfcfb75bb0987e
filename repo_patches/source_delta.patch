From c98a8345db4dca7ad8c956d325787fef9c0cf7b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 001/142] fix: keep the arguments of tag commands separated
 when writing

---
 quickly/dom/lily.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3d0a71f..3c02350 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2532,6 +2532,7 @@ class FigureAlteration(element.MappingElement):
 
 class Tag(element.HeadElement):
     r"""A ``\tag`` command."""
+    space_after_head = space_between = " "
     head = r'\tag'
 
     def signatures(self):
@@ -2540,6 +2541,7 @@ class Tag(element.HeadElement):
 
 class KeepWithTag(element.HeadElement):
     r"""A ``\keepWithTag`` command."""
+    space_after_head = space_between = " "
     head = r'\keepWithTag'
 
     def signatures(self):
@@ -2548,6 +2550,7 @@ class KeepWithTag(element.HeadElement):
 
 class RemoveWithTag(element.HeadElement):
     r"""A ``\removeWithTag`` command."""
+    space_after_head = space_between = " "
     head = r'\removeWithTag'
 
     def signatures(self):
@@ -2556,6 +2559,7 @@ class RemoveWithTag(element.HeadElement):
 
 class TagGroup(element.HeadElement):
     r"""A ``\tagGroup`` command."""
+    space_after_head = space_between = " "
     head = r'\tagGroup'
 
     def signatures(self):
@@ -2564,6 +2568,7 @@ class TagGroup(element.HeadElement):
 
 class PushToTag(element.HeadElement):
     r"""A ``\pushToTag`` command."""
+    space_after_head = space_between = " "
     head = r'\pushToTag'
 
     def signatures(self):
@@ -2572,6 +2577,7 @@ class PushToTag(element.HeadElement):
 
 class AppendToTag(element.HeadElement):
     r"""A ``\appendToTag`` command."""
+    space_after_head = space_between = " "
     head = r'\appendToTag'
 
     def signatures(self):
-- 
2.43.0


From 7672606a3bf891f35e7bf4c448d970bf2ddab009 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 002/142] fix: accept the natural sign (!) in figured bass

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3c02350..049752c 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2503,13 +2503,13 @@ class FigureAccidental(element.MappingElement):
     r"""An accidental in figure mode.
 
     One of: -1, -0.5, 0, 0.5, 1, corresponding to:
-     ``'--'``, ``'-'``, ``''``, ``'+'`` or ``'++'``.
+     ``'--'``, ``'-'``, ``'!'``, ``'+'`` or ``'++'``.
 
     """
     mapping = {
         '--':  -1,
         '-':   -0.5,
-        '':     0,
+        '!':    0,
         '+':    0.5,
         '++':   1,
     }
-- 
2.43.0


From aa0eaa1aebc21477428e441b21d7ff350270f283 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 003/142] fix: keep the origin of the closing brace of a score
 block

---
 quickly/lang/lilypond.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 23b6996..2f195e9 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -103,8 +103,6 @@ class LilyPondTransform(base.Transform):
 
     def score(self, items):
         """A Score element."""
-        tail = (items.pop(),) if items[-1] == '}' else ()
-        head = items[:2]
         return self.create_block(lily.Score, items, music=True)
 
     def header(self, items):
-- 
2.43.0


From 39834b71470b917e3f72fe4834b42e51c3b8e399 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 004/142] fix: do not lose comments following a music item
 without duration

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 2f195e9..1273219 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -744,7 +744,7 @@ class MusicBuilder:
                 music = lily.Unpitched(dur)
         elif music:
             # move comment after pitch back to toplevel
-            self._comments[0:] = util.pop_comments(music)
+            self._comments[0:0] = util.pop_comments(music)
         if music:
             if self._modifier:
                 music.extend(self._comments)
-- 
2.43.0


From cb8fb846956fcb073becd16dcb142f8d574ef015 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 005/142] fix: do not write back whitespace at places that were
 not modified

---
 quickly/dom/element.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index aac57fa..bbbecc4 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -627,6 +627,7 @@ class Element(Node, metaclass=ElementType):
         end = context.end if end is None else end
         tokens = context.tokens()
         insert_after = ''
+        changed = False     # True if the text just before the point is new or modified
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
             if point.pos is None:
@@ -635,6 +636,7 @@ class Element(Node, metaclass=ElementType):
                 if text:
                     yield pos, pos, space + text
                     insert_after = point.space_after
+                    changed = True
             else:
                 # existing element
                 if point.pos > pos:
@@ -649,11 +651,12 @@ class Element(Node, metaclass=ElementType):
                         if space and del_end < pos:
                             del_end = pos   # unparsed space can be ditched
                         yield del_pos, del_end, space
-                elif space:
+                elif space and point.pos == pos and (changed or point.modified):
                     yield point.pos, point.pos, space
                 # modified?
                 if point.modified:
                     yield point.pos, point.end, point.text()
+                changed = point.modified
                 pos = point.end
                 insert_after = point.space_after
         if pos < end:
-- 
2.43.0


From e171ba11d5c86a6196871f6c59e9c0179dd053e8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 006/142] fix: keep a melisma command that does not follow a
 note

---
 quickly/lang/lilypond.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 1273219..3c6ab5d 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -924,7 +924,13 @@ class MusicBuilder:
     def articulation_action(self, token):
         r"""Called for ``Name.Script.Articulation``."""
         cls = self._articulations_mapping.get(token.text, lily.Articulation)
-        self.add_articulation(self.factory(cls, (token,)))
+        node = self.factory(cls, (token,))
+        if cls is lily.Melisma and not self._music and not self._duration:
+            # may also be used on its own, before the first note
+            yield from self.pending_music()
+            yield node
+        else:
+            self.add_articulation(node)
 
     # mapping for spanners in spanner_action()
     _spanner_mapping = {
-- 
2.43.0


From 96f85a5132d8d2622d329200ca9c2b641e4b918a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 007/142] fix: do not fail on a chord modifier that does not
 follow a note

---
 quickly/lang/lilypond.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 3c6ab5d..4bdfba0 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1130,7 +1130,12 @@ class MusicBuilder:
     @_context("chord_modifier")
     def chord_modifier(self, obj):
         """Called with the result of the ``chord_modifier`` context."""
-        self._modifier[-1].extend(obj)
+        if isinstance(self._modifier, lily.ChordModifiers):
+            self._modifier[-1].extend(obj)
+        else:
+            # only happens in erronous LilyPond input, but at least we keep the object
+            yield from self.pending_music()
+            yield from obj
 
     @_context("repeat", "lyricsto", "lyricmode", "drummode", "notemode",
               "chordmode", "figuremode")
-- 
2.43.0


From 3316b579e22dd74a56aa912b11f49ea68339ef52 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 008/142] fix: keep Range boundaries and iteration valid when a
 boundary or current node is deleted

---
 quickly/node.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index f7bfa95..5d1f908 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -920,12 +920,19 @@ class Range(Common):
                 # adjust end boundary
                 if index <= level.end:
                     if index + removed > level.end:
-                        level.end = index + added
+                        level.end = index + added - 1
                         if adjust_end:
                             # deleted node was on the end trail, truncate
                             del level.end_trail[level.depth:]
-                            if level.end < length:
+                            if level.end > -1:
                                 level.end_trail.append(level.end)
+                                if not added:
+                                    # the node before the deleted node becomes
+                                    # the end, it remains completely in range
+                                    n = level.node[level.end]
+                                    while len(n):
+                                        level.end_trail.append(len(n) - 1)
+                                        n = n[-1]
                     else:
                         level.end += added - removed
                         if adjust_end:
@@ -938,7 +945,7 @@ class Range(Common):
                 # adjust level index
                 if index <= level.index:
                     if index + removed > level.index:
-                        level.index = index + added
+                        level.index = index + added - 1
                     else:
                         level.index += added - removed
         else:
-- 
2.43.0


From f201f1de92ceed245a5cc99141301322096628e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 009/142] fix: do not let Range.goto() fail when the ancestor
 is the end node

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 5d1f908..310f10b 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -839,7 +839,7 @@ class Range(Common):
 
         """
         return (not self.start_trail or trail >= self.start_trail[:len(trail)]) \
-           and (not self.end_trail or trail <= self.end_trail[:len(trail)])
+           and (self.end_trail is None or trail <= self.end_trail[:len(trail)])
 
     def intersects(self, node):
         """Return True if the node is partially or completely in our range.
-- 
2.43.0


From 3f3c875d852fc7f1f95df3dc112cc0ddc314ad59 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 010/142] fix: do not report an ancestor of the end node in
 range when it has descendants outside the range

---
 quickly/node.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 310f10b..d66e9ec 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -827,8 +827,19 @@ class Range(Common):
             return self._stack[0].start_in_range() and self._stack[0].end_in_range()
         elif self.start_trail and trail < self.start_trail:
             return False
-        elif self.end_trail is not None and trail > self.end_trail:
-            return False
+        elif self.end_trail is not None:
+            if trail > self.end_trail:
+                return False
+            elif len(trail) < len(self.end_trail) and trail == self.end_trail[:len(trail)]:
+                # an ancestor of the end node; in range if the end node is the
+                # last descendant
+                n = self.ancestor()
+                for i in trail:
+                    n = n[i]
+                for i in self.end_trail[len(trail):]:
+                    if i < len(n) - 1:
+                        return False
+                    n = n[i]
         return True
 
     def _trail_intersects(self, trail):
-- 
2.43.0


From 573c43a97607c32fa993ea093b8253f1e91b9ed5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 011/142] fix: keep nodes in a Range without boundaries when
 nodes are inserted at the start or end

---
 quickly/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index d66e9ec..9787962 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -953,6 +953,12 @@ class Range(Common):
                     # in this case it was because the node was empty, just move the end
                     level.end = length - 1
 
+                # without boundary at this level, all nodes are in range
+                if not adjust_start:
+                    level.start = 0
+                if level.end_trail is None:
+                    level.end = length - 1
+
                 # adjust level index
                 if index <= level.index:
                     if index + removed > level.index:
-- 
2.43.0


From 27de27c2daa77970c83eecfc02be14b560e0674e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 012/142] fix: yield no nodes, instead of failing, for an empty
 Range

---
 quickly/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index 9787962..816168e 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -786,6 +786,8 @@ class Range(Common):
     def __bool__(self):
         """False if the range is empty."""
         level = self._stack[0]
+        if self.start_trail and self.end_trail is not None and self.start_trail > self.end_trail:
+            return False
         return level.start <= level.end
 
     def __contains__(self, node):
@@ -1160,6 +1162,8 @@ class Range(Common):
         of the just yielded node will not be yielded.
 
         """
+        if not self:
+            return
         self._goto_trail(self.start_trail)
         if self.start_trail:
             node = self.node
-- 
2.43.0


From 02d0031dd22978472fe80b57fea2159e352e46bd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 013/142] fix: do not report an ancestor of an end node with
 children in range

---
 quickly/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/node.py b/quickly/node.py
index 816168e..4a35e9d 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -842,6 +842,7 @@ class Range(Common):
                     if i < len(n) - 1:
                         return False
                     n = n[i]
+                return len(n) == 0  # not complete if the end node has children
         return True
 
     def _trail_intersects(self, trail):
-- 
2.43.0


From 9a77e2cc4606cfea5aa318242e7dbd97f9e852d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 014/142] fix: let chromatic_scale() support scales more than
 an octave above C

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 0017ce5..2a762f1 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -166,7 +166,7 @@ def chromatic_scale(note=0, alter=0, scale=None, flats=None):
 
     alter += scale[note] - scale[0]
     notes = list(transpose(chrom_scale()))
-    semitones = int(alter * 2)
+    semitones = int(alter * 2) % 12
     return notes[-semitones:] + notes[:-semitones]  # rotate so C-based pitch is at start
 
 
-- 
2.43.0


From f3d626ee0e179a0f33515e3a3b1cb43824d706ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 015/142] fix: accept a list of flats in KeySignature

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 2a762f1..f4640d1 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -323,7 +323,7 @@ class KeySignature:
         """
         if flats is None:
             flats = self.flats
-        return self._midi_reader(flats)(key)
+        return self._midi_reader(tuple(flats))(key)
 
     @cached_method
     def _midi_reader(self, flats):
-- 
2.43.0


From 4df8dbecfaafd89d2839bdd6418a92710c68caa0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 016/142] fix: do not fail in repr() of a KeySignature

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index f4640d1..ea44cd8 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -226,7 +226,7 @@ class KeySignature:
         self.flats = pitch.MAJOR_FLATS
 
     def __repr__(self):
-        p = pitch.Pitch(self.note, self.alter)
+        p = pitch.Pitch(-1, self.note, self.alter)
         return "<{} note,alter={},{} ({}) mode={}>".format(type(self).__name__,
             self.note, self.alter, p, self.mode)
 
-- 
2.43.0


From 8097b8de0fb0b2f3427214c89b086fffc5906990 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 017/142] fix: look at the alteration when determining the
 preference for long english pitch names

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index fd63359..856439b 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -516,7 +516,7 @@ class PitchProcessor:
                 elif language == "english":
                     if '-' in name:
                         prefer_long = True
-                    elif not prefer_long and pnames[name][1] in {-1, -0.5, 0.5, 1}:
+                    elif not prefer_long and pnames[name][2] in {-1, -0.5, 0.5, 1}:
                         prefer_long = False
                 elif language == "français":
                     if 'é' in name:
-- 
2.43.0


From d7f62d22788806567fe78f373147bd44e45071ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 018/142] fix: do not invert prefer_classic for norsk pitch
 names

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 856439b..97d6618 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -612,7 +612,7 @@ class PitchProcessor:
                 return subset[0]
             names = subset
         for name in names:
-            if self.prefer_classic == ('ee' in name or 'ae' in name):
+            if self.prefer_classic == (name[:2] in {'es', 'as'}):
                 return name
 
     @_suitable("suomi")
-- 
2.43.0


From 99d9790f2ddfc635836a73509146ae30fabb728a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 019/142] =?UTF-8?q?fix:=20honour=20prefer=5Fdeprecated=20a?=
 =?UTF-8?q?lso=20for=20catal=C3=A0?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 quickly/pitch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 97d6618..0b1b4b0 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -565,6 +565,7 @@ class PitchProcessor:
                 return name
 
     @_suitable("catalan")
+    @_suitable("català")
     def _catalan(self, names):
         for name in names:
             if self.prefer_deprecated == name.endswith('s'):
-- 
2.43.0


From b0283358de9858323d1b67049b6c0bc309014e8a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 020/142] fix: do not write long english pitch names when
 prefer_x is set

---
 quickly/pitch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 0b1b4b0..529f493 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -583,9 +583,12 @@ class PitchProcessor:
             for name in names:
                 if "-" in name:
                     return name
+        names = [name for name in names if "-" not in name]
         for name in names:
-            if "-" not in name and self.prefer_x == name.endswith('x'):
+            if self.prefer_x == name.endswith('x'):
                 return name
+        for name in names:
+            return name
 
     @_suitable("espanol")
     @_suitable("español")
-- 
2.43.0


From 2ea4d112b9ae9d5b59da35f2c78d4743e4e8f7c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 021/142] fix: keep the spacing settings when copying an
 element

---
 quickly/dom/element.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index bbbecc4..3db3e85 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -183,7 +183,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return type(self)(*children, **getattr(self, '_spacing', {}))
+        return type(self)(*children, **self._space_attrs())
 
     def copy_with_origin(self, with_children=True):
         """Copy the node, with origin if available.
@@ -193,10 +193,14 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = type(self)(*children, **getattr(self, '_spacing', {}))
+        copy = type(self)(*children, **self._space_attrs())
         copy.copy_origin_from(self)
         return copy
 
+    def _space_attrs(self):
+        """Return a dict with the spacing attributes that deviate from the default."""
+        return {'space_' + name: value for name, value in getattr(self, '_space', {}).items()}
+
     def copy_origin_from(self, other, modified=None):
         """Copy the origin from another element node to ourself.
 
@@ -923,11 +927,11 @@ class TextElement(HeadElement):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        return self._factory(self.head, *children, **self._space_attrs())
 
     def copy_with_origin(self, with_children=True):
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        copy = self._factory(self.head, *children, **self._space_attrs())
         copy.copy_origin_from(self)
         return copy
 
-- 
2.43.0


From 42b743f1925be14ec2c98f9627f1ef741193889d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 022/142] fix: keep events that do not follow a note

---
 quickly/lang/lilypond.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 4bdfba0..224a4aa 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -685,6 +685,7 @@ class MusicBuilder:
         self.items = iter(items)
         self._events = []         # for direction and spanner-id
         self._comments = []       # for comments between pitch and duration...
+        self._unbound = []        # for events that do not follow music
         self.reset()
 
     def reset(self):
@@ -727,6 +728,8 @@ class MusicBuilder:
                 result = meth(i.obj)
             if result:
                 yield from result
+            if self._unbound:
+                yield from self.unbound_events()
 
         # pending stuff
         yield from self.pending_music()
@@ -761,28 +764,33 @@ class MusicBuilder:
             yield from self._comments
 
         # if there are tweaks, tags or shapes but no articulations, the
-        # tweak, tag or shape is meant for the next note. Output it now.
-        for e in self._events:
-            if isinstance(e, (lily.Tweak, lily.Tag, lily.Shape)):
-                yield e
+        # tweak, tag or shape is meant for the next note. Output it now,
+        # including a direction, e.g. before ``\parenthesize``.
+        yield from self._events
         self.reset()
 
+    def unbound_events(self):
+        """Yield the events that could not be added to a preceding music item."""
+        yield from self._unbound
+        self._unbound.clear()
+
     def add_articulation(self, art):
         """Add an articulation or script."""
+        if self._events:
+            self._events[-1].append(art)
+            art = e = self._events[0]
+            for f in self._events[1:]:
+                e.append(f)
+                e = f
+            self._events.clear()
         if self._music or self._duration:
-            if self._events:
-                self._events[-1].append(art)
-                art = e = self._events[0]
-                for f in self._events[1:]:
-                    e.append(f)
-                    e = f
-                self._events.clear()
             if not self._articulations:
                 self._articulations = lily.Articulations()
             self._articulations.append(art)
             return True
         else:
-            print("Unbound event:", art) # TEMP
+            # not bound to a note, keep it as a separate node
+            self._unbound.append(art)
             return False
 
     def add_spanner_id(self, node):
-- 
2.43.0


From 03d2856c9c89679c4e3a5ddc190c5e6bea804e85 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 023/142] fix: do not read a string number as a duration

---
 quickly/lang/lilypond.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 224a4aa..6b78c03 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -59,6 +59,12 @@ class LilyPond(parce.lang.lilypond.LilyPond):
         from .scheme import Scheme
         return Scheme.scheme
 
+    @classmethod
+    def music(cls):
+        """Musical items."""
+        yield r"\\\d+", a.Name.Script.Articulation     # a string number, like ``\1``
+        yield from super().music()
+
     @lexicon
     def html_lilypond_tag(cls):
         """LilyPond from inside Html, contents of a <lilypond> </lilypond> tag."""
-- 
2.43.0


From 0796bb4a21b9a2ea9ccebb87717e03ce1e25e7a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 024/142] fix: keep events that follow a bare duration or
 number argument

---
 quickly/dom/lily.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 049752c..352f8ad 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -488,10 +488,11 @@ class _ConvertUnpitchedToDuration(element.Element):
     def add_argument(self, node):
         """Reimplemented to pick the Duration of an Unpitched node."""
         if isinstance(node, Unpitched):
-            for node in node:
-                node = node.copy_with_origin()
-                break
-        super().add_argument(node)
+            # also keep events and comments that follow the duration
+            for n in node:
+                super().add_argument(n.copy_with_origin())
+        else:
+            super().add_argument(node)
 
 
 class _ConvertUnpitchedToInt(element.Element):
@@ -500,7 +501,13 @@ class _ConvertUnpitchedToInt(element.Element):
         """Reimplemented to read the Duration of an Unpitched node as a Int."""
         if isinstance(node, Unpitched):
             for dur in node / Duration:
-                node = convert_duration_to_int(dur) or node
+                num = convert_duration_to_int(dur)
+                if num:
+                    super().add_argument(num)
+                    # also keep events and comments that follow the number
+                    for n in node[1:]:
+                        super().add_argument(n.copy_with_origin())
+                    return
                 break
         super().add_argument(node)
 
-- 
2.43.0


From b47b77f280d88004bf96bcc4d3c9ef52c54f9760 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 025/142] fix: do not fail on an unfinished lilypond tag in
 Html

---
 quickly/lang/lilypond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 6b78c03..c20a086 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -336,12 +336,12 @@ class LilyPondTransform(base.Transform):
         Returns a two-tuple: ``([list of elements], tail_origin)``.
 
         """
+        tail_origin = ()
+        close_tag = None
         if items:
             if items[-1] == '/>':
                 tail_origin = (items.pop(),)
-                close_tag = None
             elif items.peek(-3, a.Delimiter, a.Name.Tag, a.Delimiter):
-                tail_origin = ()
                 close_tag = self.factory(htm.CloseTag, items[-3:-2], items[-1:], self.factory(htm.TagName, items[-2:-1]))
                 del items[-3:]
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From db107134298688263632e5c2151b87cbbbd292ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 026/142] fix: let htm_document() read documents with a
 doctype, style or script

---
 quickly/dom/read.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/read.py b/quickly/dom/read.py
index 86f30d1..68f5fb3 100644
--- a/quickly/dom/read.py
+++ b/quickly/dom/read.py
@@ -37,6 +37,7 @@ scratch.)
 """
 
 
+import parce
 from parce.transform import Transformer
 
 from ..lang import (
@@ -108,7 +109,9 @@ def htm_document(text, with_origin=False):
                ╰╴<htm.TagName 'html' [36:40]>
 
     """
-    return _transformer[with_origin].transform_text(html.Html.root, text)
+    # transform_text() can't handle contexts that have no transform method,
+    # such as a doctype, style or script tag
+    return _transformer[with_origin].transform_tree(parce.root(html.Html.root, text))
 
 
 def htm(text, with_origin=False):
-- 
2.43.0


From cbccd3c1b493237e2c43b8114c97cf34e16e5e84 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 027/142] fix: support braces in LaTeX math mode

---
 quickly/lang/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index f33f8ba..044d959 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -167,7 +167,7 @@ class LatexTransform(base.Transform):
 
     _math_mapping = element.head_mapping(
         tex.MathInlineParen, tex.MathInlineDollar, tex.MathDisplayBracket,
-        tex.MathDisplayDollar)
+        tex.MathDisplayDollar, tex.Brace)
 
     def math(self, items):
         """Process the ``math`` context; return a Math node."""
-- 
2.43.0


From 87931155fb22b3bbc50989acb9a40ec011a12084 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 028/142] fix: do not fail on an empty lilypond environment in
 LaTeX

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index c20a086..88040bc 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -369,7 +369,7 @@ class LilyPondTransform(base.Transform):
             end = self.factory(tex.Command, items[-4:-3])
             end.append(self.factory(tex.EnvironmentName, items[-3:]))
             items = items[:-4]
-        elif items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
+        elif items and items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
             # short form \lilypond { ... }
             tail_origin = (items.pop(),)
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From 6bc876589f5019d69b38a2ad1059cffff32072a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 029/142] fix: keep the opening bracket of an unfinished option
 in LaTeX

---
 quickly/lang/latex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 044d959..b197bf6 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -110,7 +110,10 @@ class LatexTransform(base.Transform):
             try:
                 i = items.index(']', pos)
             except ValueError:
-                nodes.append(self.factory(tex.Option, head_origin, (), *self.common(items[pos:])))
+                if head_origin:
+                    nodes.append(self.factory(tex.Option, head_origin, (), *self.common(items[pos:])))
+                else:
+                    nodes.append( (self.common(items[pos:]), ()) )
                 break
             tail_origin = items[i],
             if head_origin:
-- 
2.43.0


From 9f8283fe72494e303bfff34e52eaa01f9ee7cfa7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 030/142] fix: support whitespace before the options of a
 lilypond environment in LaTeX

---
 quickly/lang/latex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index b197bf6..22fec42 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -97,6 +97,9 @@ class LatexTransform(base.Transform):
         if items.peek(-1, a.Delimiter.Brace):
             # opening bracket of short form LilyPond command
             command_head = (items.pop(),)
+        if items.peek(0, a.Pseudo, a.Delimiter.Bracket) and items[1] == '[' and items[0].text.isspace():
+            # whitespace before the opening bracket
+            items.pop(0)
         i = 0
         if items.peek(0, a.Delimiter.Bracket) and items[0].text == '[':
             # complete first Option node
-- 
2.43.0


From 21bc8dfcf2e0fff5a7eea0a6212215fa161e0018 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 031/142] fix: do not drop comments, cdata and processing
 instructions in Html

---
 quickly/lang/html.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index de80309..51dcc8b 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -237,6 +237,8 @@ class HtmlTransform(base.Transform):
                 nodes[-1].extend(items[i].obj) # add contents and CloseTag
             elif items[i].name == "html_lilypond_tag":
                 nodes[-1].extend(items[i].obj[0]) # add contents and CloseTag
+            elif isinstance(items[i].obj, element.Element):
+                nodes.append(items[i].obj) # comment, cdata or processing instruction
             i += 1
         return nodes
 
-- 
2.43.0


From 392eecf215df2c7166659fbf798860f0c8193d7c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 032/142] fix: read and write CDATA sections in Html correctly

---
 quickly/dom/htm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 1ce2463..38e41de 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -235,12 +235,14 @@ class CData(element.TextElement):
     """
     @classmethod
     def read_head(cls, origin):
-        return origin[1]
+        # leave out the '<![', 'CDATA' and '[' tokens
+        end = -1 if origin[-1] == ']]>' else None
+        return ''.join(t.text for t in origin[3:end])
 
     def write_head(self):
         # handle the unlikely case literal ']]>' is in text
-        text = self.head.replace(']]>', ']]>]]&gt;<[CDATA[')
-        return "<[CDATA[{}]]>".format(text)
+        text = self.head.replace(']]>', ']]>]]&gt;<![CDATA[')
+        return "<![CDATA[{}]]>".format(text)
 
 
 class String(element.BlockElement):
-- 
2.43.0


From 0ab3592a5639f9b9810cdf5358e1ac4d0ef7cdd2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 033/142] fix: write the delimiters of a Html comment

---
 quickly/dom/htm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 38e41de..8e281b2 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -211,6 +211,13 @@ class Text(element.TextElement):
 
 class Comment(base.MultilineComment):
     """A Html/Xml comment node."""
+    @classmethod
+    def read_head(cls, origin):
+        end = -1 if len(origin) > 1 and origin[-1] == '-->' else None
+        return ''.join(t.text for t in origin[1:end])
+
+    def write_head(self):
+        return '<!--{}-->'.format(self.head)
 
 
 class EntityRef(element.TextElement):
-- 
2.43.0


From bfdb54f49c182b48665aef8cd1d26ebceab634b4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 034/142] fix: do not escape the text in a Html processing
 instruction

---
 quickly/dom/htm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 8e281b2..9d1faef 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -206,6 +206,8 @@ class Document(base.Document, Element):
 class Text(element.TextElement):
     """Html/Xml text contents (Text or Whitespace)."""
     def write_head(self):
+        if any(isinstance(n, ProcessingInstruction) for n in self.ancestors()):
+            return self.head    # entities have no meaning there
         return html.escape(self.head)
 
 
-- 
2.43.0


From 56410a2cfdf39de3ed856e04130f91aa21e51cb9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 035/142] fix: do not add newlines to LaTeX text that was read

---
 quickly/dom/tex.py    | 3 +++
 quickly/lang/latex.py | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/tex.py b/quickly/dom/tex.py
index d3f34ff..61192d5 100644
--- a/quickly/dom/tex.py
+++ b/quickly/dom/tex.py
@@ -40,6 +40,9 @@ class Document(base.Document):
     """A full LaTeX source document."""
     space_between = ''
 
+    def concat_space(self, n, m):
+        return self.space_between
+
 
 class Option(element.BlockElement):
     """An option block: ``[`` ... ``]``."""
diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 22fec42..4ddddce 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -184,7 +184,9 @@ class LatexTransform(base.Transform):
 
     def comment(self, items):
         """Process the ``comment`` context."""
-        return self.factory(tex.Comment, items)
+        node = self.factory(tex.Comment, items)
+        node.space_after = ''   # the newline is in the text that follows
+        return node
 
     test_lilypond_option = None # never creates content
 
@@ -240,7 +242,8 @@ class LatexTransform(base.Transform):
         def environment(t):
             """Return an Environment node, possibly containing LilyPond music."""
             nonlocal i
-            env = tex.Environment(self.factory(tex.Command, (t,)))
+            # the whitespace is in the surrounding text
+            env = tex.Environment(self.factory(tex.Command, (t,)), space_before='', space_after='')
             if items.peek(i, a.Delimiter, a.Name.Tag, a.Delimiter):
                 # no options, add the name
                 env[-1].append(self.factory(tex.EnvironmentName, items[i:i+3]))
-- 
2.43.0


From 66a3fed3d87883db2be9af3c8d1ab8030555d022 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 036/142] fix: do not lose the last part of an unterminated
 string

---
 quickly/dom/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/base.py b/quickly/dom/base.py
index 36b5e2f..629296a 100644
--- a/quickly/dom/base.py
+++ b/quickly/dom/base.py
@@ -52,8 +52,10 @@ class String(element.TextElement):
 
     @classmethod
     def read_head(cls, origin):
+        # the closing quote can be missing
+        end = -1 if len(origin) > 1 and origin[-1] == '"' else None
         return ''.join(t.text[1:] if t.action is a.String.Escape else t.text
-            for t in origin[1:-1])
+            for t in origin[1:end])
 
     def write_head(self):
         return '"{}"'.format(re.sub(r'([\\"])', r'\\\1', self.head))
-- 
2.43.0


From 8518942d172a5c5d8b07441b00abc95f464ff3b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 037/142] fix: read the newline and tab escapes in a LilyPond
 string

---
 quickly/dom/lily.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 352f8ad..8f99818 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -668,6 +668,12 @@ class Symbol(element.TextElement):
 
 class String(base.String):
     r"""A quoted string."""
+    @classmethod
+    def read_head(cls, origin):
+        end = -1 if len(origin) > 1 and origin[-1] == '"' else None
+        text = ''.join(t.text for t in origin[1:end])
+        escapes = {'n': '\n', 't': '\t'}
+        return re.sub(r"""\\([nt'"\\])""", lambda m: escapes.get(m.group(1), m.group(1)), text)
 
 
 class Scheme(element.TextElement):
-- 
2.43.0


From 1ab7aaaaeae4cc07328d2abf0d92ab6498b8e27c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 038/142] fix: use the correct closing delimiter for a
 multiline comment in Scheme

---
 quickly/dom/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index cd887d5..5052a23 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -86,14 +86,14 @@ class SinglelineComment(base.SinglelineComment):
 
 
 class MultilineComment(base.MultilineComment):
-    """A multiline comment in Scheme after ``#!``."""
+    """A multiline comment in Scheme between ``#!`` and ``!#``."""
     @classmethod
     def read_head(cls, origin):
-        end = -1 if origin[-1] == "#!" else None
+        end = -1 if origin[-1] == "!#" else None
         return ''.join(t.text for t in origin[1:end])
 
     def write_head(self):
-        return '#!{}#!'.format(self.head)
+        return '#!{}!#'.format(self.head)
 
 
 class Char(element.TextElement):
-- 
2.43.0


From 3b5bb9d5994e3a486fcff0bd4b68417dec74869c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 039/142] fix: read Scheme symbols like 1+ and ->string as
 Identifier

---
 quickly/lang/scheme.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/scheme.py b/quickly/lang/scheme.py
index fa17024..0c0e884 100644
--- a/quickly/lang/scheme.py
+++ b/quickly/lang/scheme.py
@@ -94,12 +94,19 @@ class SchemeTransform(base.Transform):
         16: scm.Hex,
     }
     def number(self, items):
-        """Create a Number node."""
+        """Create a Number node.
+
+        An Identifier is created when the text is no valid number, e.g. ``1+``
+        or ``->string``.
+
+        """
         radix = items.arg or 10
         try:
             return self.factory(self._radix_mapping[radix], items)
-        except (ValueError, ZeroDivisionError):
+        except ZeroDivisionError:
             return self.factory(scm.NaN, items)
+        except ValueError:
+            return self.factory(scm.Identifier, items)
 
     def string(self, items):
         """Create a String node."""
-- 
2.43.0


From 9678bc927c2d6e6039e2954f272f4786c41138ed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 040/142] fix: write inexact and complex Scheme numbers in
 other radices correctly

---
 quickly/dom/scm.py | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 5052a23..aded7ff 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -163,25 +163,31 @@ class Number(element.TextElement):
 
     def write_head(self):
         v = self.head
-        if v == math.inf:
-            s = '+inf.0'
-        elif v == -math.inf:
-            s = '-inf.0'
-        elif v is math.nan:
-            s = '+nan.0'
-        elif isinstance(v, fractions.Fraction):
-            fmt = self._fmt[self.radix]
-            f = lambda n: format(n, fmt)
-            s = f(v.numerator)
-            if v.denominator != 1:
-                s = '{}/{}'.format(s, f(v.denominator))
-        elif isinstance(v, float) and self.radix == 10:
-            s = str(v)
-        elif isinstance(v, complex):
-            s = '{}{:+}i'.format(v.real, v.imag)
+        fmt = self._fmt[self.radix]
+
+        def real(v):
+            """Return the text for a real value, without prefix."""
+            if v == math.inf:
+                return '+inf.0'
+            elif v == -math.inf:
+                return '-inf.0'
+            elif v != v:
+                return '+nan.0'
+            elif isinstance(v, float) and self.radix == 10:
+                return str(v)
+            # other radices have no decimal notation
+            n, d = v.as_integer_ratio()
+            return format(n, fmt) if d == 1 else '{}/{}'.format(format(n, fmt), format(d, fmt))
+
+        prefix = self._prefix[self.radix]
+        if isinstance(v, complex):
+            imag = real(v.imag)
+            s = '{}{}{}i'.format(real(v.real), '' if imag[0] in '+-' else '+', imag)
         else:
-            s = format(int(v), self._fmt[self.radix])
-        return self._prefix[self.radix] + s
+            s = real(v)
+        if self.radix != 10 and isinstance(v, (float, complex)):
+            prefix = '#i' + prefix
+        return prefix + s
 
     def repr_head(self):
         """Dump Scheme numbers in Scheme syntax."""
-- 
2.43.0


From 4cf8c5635e13d677939f316c00953354d7916d01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 041/142] fix: let Scheme nan values compare equal

---
 quickly/dom/scm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index aded7ff..4795d7f 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -189,6 +189,11 @@ class Number(element.TextElement):
             prefix = '#i' + prefix
         return prefix + s
 
+    def body_equals(self, other):
+        """Compare the numbers; nan values are considered equal."""
+        h, o = self.head, other.head
+        return h == o or (h != h and o != o)
+
     def repr_head(self):
         """Dump Scheme numbers in Scheme syntax."""
         return self.write_head()
-- 
2.43.0


From 9bde2206c32185763a5d0698d366ea4c27722077 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 042/142] fix: keep the order of a tweak or tag and a following
 bare duration

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 88040bc..66c1d3c 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -914,7 +914,7 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
-        if self._duration or self._articulations:
+        if self._duration or self._articulations or self._events:
             yield from self.pending_music()
         self._duration = [token]
 
-- 
2.43.0


From bfcf54d781e38c2297fc8bbe23a7cf0da5157b4b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 043/142] fix: get the value of a Scheme boolean, number or
 string

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 8f99818..e34a8c9 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3468,7 +3468,7 @@ def create_value_from_element(node):
         if len(node) == 1:
             node = node[0]
             if isinstance(node, (scm.Bool, scm.Number, scm.String)):
-                return node.value
+                return node.head
 
 
 def get_num_value(node):
-- 
2.43.0


From 3b0211d1065c3db225b5bb7ab1f3984725338818 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 044/142] fix: keep the inexactness of Scheme numbers like
 #i#b1 and 16##

---
 quickly/dom/scm.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 4795d7f..4dc5357 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -159,7 +159,16 @@ class Number(element.TextElement):
     @classmethod
     def read_head(cls, origin):
         from parce.lang.scheme import scheme_number
-        return scheme_number(origin)
+        value = scheme_number(origin)
+        if isinstance(value, (int, fractions.Fraction)):
+            # scheme_number() ignores ``#i`` and ``#`` digits for some numbers
+            texts = [t.text.lower() for t in origin]
+            if '#i' in texts or ('#e' not in texts and any(not t.strip('#') for t in texts)):
+                try:
+                    return float(value)
+                except OverflowError:
+                    return math.copysign(math.inf, value)
+        return value
 
     def write_head(self):
         v = self.head
-- 
2.43.0


From 424d09c25569470a2927fc706310986a302d0d91 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 045/142] fix: read the LaTeX command \lilypondfile as one
 command

---
 quickly/lang/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 4ddddce..0eb37df 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -43,7 +43,7 @@ class Latex(parce.lang.tex.Latex):
 
     @classmethod
     def common(cls):
-        yield r'(\\lilypond)\s*(?:(\{)|(\[))?', bygroup(a.Name.Builtin, a.Delimiter.Brace, a.Delimiter), \
+        yield r'(\\lilypond)(?![a-zA-Z@])\s*(?:(\{)|(\[))?', bygroup(a.Name.Builtin, a.Delimiter.Brace, a.Delimiter), \
             ifgroup(2, lilypond.LilyPond.latex_lilypond_environment('short form'),
                 ifgroup(3, cls.option("lilypond")))
         yield from super().common()
-- 
2.43.0


From dbb4bb5c3e46a6fa8ede378b949cbaab996369cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 046/142] fix: use the entity resolver for nested elements in
 to_plaintext()

---
 quickly/dom/htm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 9d1faef..004beca 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -183,7 +183,7 @@ class Element(element.Element):
 
         def to_text(obj):
             if isinstance(obj, Element):
-                return obj.to_plaintext()
+                return obj.to_plaintext(entity_resolver)
             elif isinstance(obj, Text):
                 return obj.head
             elif isinstance(obj, EntityRef):
-- 
2.43.0


From 498200d75a43991cff2df5065757e7d6d03da7c6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 047/142] fix: read multiple LaTeX options as separate Option
 nodes

---
 quickly/lang/latex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 0eb37df..3c2c3ef 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -52,6 +52,7 @@ class Latex(parce.lang.tex.Latex):
     def option(cls):
         yield ifarg(r'(\])\s*(\{)'), bygroup(a.Delimiter, a.Delimiter.Brace), -1, \
                 lilypond.LilyPond.latex_lilypond_environment('short form')
+        yield r'(\])(?:\s*(\[))?', bygroup(a.Delimiter.Bracket, a.Delimiter.Bracket), ifgroup(2, 0, -1)
         yield from super().option
         yield r'\[', a.Delimiter.Bracket    # this can match if we were here looking for a [
 
-- 
2.43.0


From 4fe45532da43d6d07303c0b2480bd10554e3adf9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 048/142] fix: keep whitespace before the options of a lilypond
 environment in the document

---
 quickly/lang/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 3c2c3ef..d5244c3 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -94,13 +94,14 @@ class LatexTransform(base.Transform):
         command, it is the brace that starts the braced expression.
 
         """
+        nodes = []
         command_head = ()
         if items.peek(-1, a.Delimiter.Brace):
             # opening bracket of short form LilyPond command
             command_head = (items.pop(),)
         if items.peek(0, a.Pseudo, a.Delimiter.Bracket) and items[1] == '[' and items[0].text.isspace():
             # whitespace before the opening bracket
-            items.pop(0)
+            nodes.append(self.factory(tex.Text, (items.pop(0),)))
         i = 0
         if items.peek(0, a.Delimiter.Bracket) and items[0].text == '[':
             # complete first Option node
@@ -108,7 +109,6 @@ class LatexTransform(base.Transform):
             i = 1
         else:
             head_origin = ()
-        nodes = []
         pos = i
         while True:
             try:
-- 
2.43.0


From ac25d1e445bca136c54a56ace23234da27e198ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 049/142] fix: do not lose elements that were moved when
 writing back edits

---
 quickly/dom/element.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 3db3e85..ff89cf1 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -52,6 +52,7 @@ the document if modified, using the :meth:`~Element.edit` method.
 
 """
 
+import bisect
 import collections
 import reprlib
 
@@ -76,6 +77,32 @@ HEAD_MODIFIED = 1
 TAIL_MODIFIED = 2
 
 
+def points_in_place(points):
+    """Return the set of indices of the existing points that did not move.
+
+    These are the points that have a position in the original text, and that
+    are still in the same order. If points have been moved, the smallest
+    possible number of points is considered to be moved. The text of a moved
+    point needs to be written at its new position.
+
+    """
+    ends = []       # for every length, the lowest position a sorted sequence ends with
+    last = []       # the index of the last point of that sequence
+    previous = {}   # the index of the preceding point in the sequence
+    for index, point in enumerate(points):
+        if point.pos is not None:
+            i = bisect.bisect_left(ends, point.pos)
+            previous[index] = last[i-1] if i else None
+            ends[i:i+1] = [point.pos]
+            last[i:i+1] = [index]
+    result = set()
+    index = last[-1] if last else None
+    while index is not None:
+        result.add(index)
+        index = previous[index]
+    return result
+
+
 class _SpaceProperty:
     """A property that denotes spacing.
 
@@ -632,10 +659,12 @@ class Element(Node, metaclass=ElementType):
         tokens = context.tokens()
         insert_after = ''
         changed = False     # True if the text just before the point is new or modified
-        for point in self.points():
+        points = list(self.points())
+        in_place = points_in_place(points)
+        for index, point in enumerate(points):
             space = collapse_whitespace((insert_after, point.space_before))
-            if point.pos is None:
-                # new element
+            if index not in in_place:
+                # new or moved element
                 text = point.text()
                 if text:
                     yield pos, pos, space + text
-- 
2.43.0


From 330d69383579c19373e1681b606a163f3317e6a7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 050/142] fix: write a newline after a new single line comment

---
 quickly/dom/element.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index ff89cf1..b5f1117 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -657,8 +657,15 @@ class Element(Node, metaclass=ElementType):
         pos = context.pos if start is None else start
         end = context.end if end is None else end
         tokens = context.tokens()
+
+        def is_line_comment(point):
+            """True if the point is a comment that lasts until the end of the line."""
+            from .base import SinglelineComment
+            return isinstance(point.text.__self__, SinglelineComment)
+
         insert_after = ''
         changed = False     # True if the text just before the point is new or modified
+        line_comment = False    # True if the text just before the point is a new comment
         points = list(self.points())
         in_place = points_in_place(points)
         for index, point in enumerate(points):
@@ -670,6 +677,7 @@ class Element(Node, metaclass=ElementType):
                     yield pos, pos, space + text
                     insert_after = point.space_after
                     changed = True
+                    line_comment = is_line_comment(point)
             else:
                 # existing element
                 if point.pos > pos:
@@ -684,12 +692,16 @@ class Element(Node, metaclass=ElementType):
                         if space and del_end < pos:
                             del_end = pos   # unparsed space can be ditched
                         yield del_pos, del_end, space
+                    elif line_comment:
+                        # the existing whitespace might not contain a newline
+                        yield del_pos, del_pos, '\n'
                 elif space and point.pos == pos and (changed or point.modified):
                     yield point.pos, point.pos, space
                 # modified?
                 if point.modified:
                     yield point.pos, point.end, point.text()
                 changed = point.modified
+                line_comment = False
                 pos = point.end
                 insert_after = point.space_after
         if pos < end:
-- 
2.43.0


From 9368ad2313169500e9e8b1eb9b23b48bcf5ea60a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 051/142] fix: align indented lines to a child, not to a
 descendant

---
 quickly/dom/indent.py | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index b8a59cf..9b9a515 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -109,6 +109,7 @@ class Indenter:
         self._dedenters = 0             # the negative count of indent levels to end
         self._whitespace = []           # collects the minimal amount of whitespace between nodes
         self._can_dedent = False        # can the current line be dedented
+        self._align_children = []       # the (level, child_index) tuples the next head text is the position for
 
     def write(self, node):
         """Get the indented output of the node.
@@ -121,6 +122,7 @@ class Indenter:
         self._indenters.clear()
         self._dedenters = 0
         self._whitespace.clear()
+        self._align_children.clear()
         self.create_new_block()
         self.output_node(node)
 
@@ -137,13 +139,8 @@ class Indenter:
 
         return ''.join(block.output() for block in result)
 
-    def output_node(self, node, index=-1):
-        """*(Internal.)* Output one node and its children.
-
-        The index, if given, is the index of this node in its parent. This is
-        used to get additional indenting hints for the node.
-
-        """
+    def output_node(self, node):
+        """*(Internal.)* Output one node and its children."""
         head = node.write_head()
         tail = node.write_tail()
         has_children = len(node) > 0
@@ -152,19 +149,23 @@ class Indenter:
         self.add_whitespace(node.space_before)
 
         if head:
-            self.output_head(head, index, node.indent_override())
+            self.output_head(head, node.indent_override())
             if tail or has_children:
                 self.add_whitespace(node.space_after_head)
 
         if indent:
             self.enter_indent(node)
+            level = self._indenters[-1]
 
         if has_children:
-            n = node[0]
-            self.output_node(n, 0)
-            for i, m in enumerate(node[1:], 1):
-                self.add_whitespace(node.concat_space(n, m))
-                self.output_node(m, i)
+            n = None
+            for i, m in enumerate(node):
+                if i:
+                    self.add_whitespace(node.concat_space(n, m))
+                if indent and i in level.align_indices:
+                    # lines could be aligned to this child
+                    self._align_children.append((level, i))
+                self.output_node(m)
                 n = m
 
         if indent:
@@ -232,12 +233,9 @@ class Indenter:
                 self._output[-1].line.append(c)
         self._whitespace.clear()
 
-    def output_head(self, text, index=-1, override=None):
+    def output_head(self, text, override=None):
         """*(Internal.)* Output head text.
 
-        The ``index``, if given, is the index of the node in its parent. This
-        is used to get additional indenting hints for the node.
-
         If ``override`` is not None, and this head text happens to be the first
         on a new line, this value is used as the indent depth for this line,
         in stead of the current indent.
@@ -248,15 +246,18 @@ class Indenter:
         last_line = self._output[-1].line
         if not last_line and override is not None:
             self._output[-1].indent = override
-        if self._indenters and index in self._indenters[-1].align_indices:
-            # store the position of the node on the current output line
-            position = len(last_line)
-            self._indenters[-1].align_child(index, position)
+        # store the position on the current output line for child nodes that
+        # start here (if their parent also started on this line)
+        for level, index in self._align_children:
+            if level in self._indenters:
+                level.align_child(index, len(last_line))
+        self._align_children.clear()
         last_line.append(text)
 
     def output_tail(self, text):
         """*(Internal.)* Output the tail text."""
         self.output_space()
+        self._align_children.clear()
         if self._can_dedent and self._dedenters:
             del self._indent_stack[self._dedenters]
             self._dedenters = 0
-- 
2.43.0


From 56745ce7f647549ea411e594f427f26d38e59f38 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 052/142] fix: do not count newlines inside strings and
 comments in add_newlines()

---
 quickly/dom/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index cf2c53b..4fe9115 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -116,6 +116,7 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
             s = get_newlines(head_origin[0].pos)
             if s and whitespace_key(s) > whitespace_key(node.space_before):
                 node.space_before = s
+            get_newlines(head_origin[-1].end)   # skip newlines in the text itself
 
         for n in node:
             handle_node(n)
-- 
2.43.0


From 9a1346006e9f0ec47d572add64fa25c628caea43 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 053/142] fix: do not fail in add_newlines() when the tail of
 an element is missing

---
 quickly/dom/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index 4fe9115..5e8d3db 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -126,6 +126,8 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         except AttributeError:
             pass
         else:
+            if not tail_origin:
+                return  # can happen when tail was missing
             s = get_newlines(tail_origin[0].pos)
             if s and whitespace_key(s) > whitespace_key(node.space_before_tail):
                 node.space_before_tail = s
-- 
2.43.0


From a11c8a3ea6065df11f5341e26cde9c3522072ad3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 054/142] fix: do not count stripped space when aligning to the
 first indented line

---
 quickly/dom/indent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index 9b9a515..fe71737 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -229,8 +229,8 @@ class Indenter:
         for c in util.collapse_whitespace(self._whitespace):
             if c == '\n':
                 self.create_new_block()
-            else:
-                self._output[-1].line.append(c)
+            elif len(self._output) > 1 or self._output[0].line:
+                self._output[-1].line.append(c) # not at the very beginning
         self._whitespace.clear()
 
     def output_head(self, text, override=None):
-- 
2.43.0


From 99eaf64c9ea17e426f1eaf60e240e144a78e8fd9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 055/142] fix: do not make a comment after a number, symbol or
 scheme expression part of it

---
 quickly/lang/lilypond.py | 56 ++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 66c1d3c..e608eec 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -271,9 +271,17 @@ class LilyPondTransform(base.Transform):
                 yield i.obj # can be a Scheme or String
 
     def list(self, items):
-        """A List, String, Int, Symbol, or Scheme element."""
+        """A list with a List, String, Int, Symbol, or Scheme element.
+
+        Comments at the end do not belong to the element, and follow it.
+
+        """
         nodes = list(self._list_nodes(items))
-        return nodes[0] if len(nodes) == 1 else lily.List(*nodes)
+        comments = []
+        while len(nodes) > 1 and isinstance(nodes[-1], base.Comment):
+            comments.insert(0, nodes.pop())
+        node = nodes[0] if len(nodes) == 1 else lily.List(*nodes)
+        return [node, *comments]
 
     start_list = None   # lexicon never creates tokens
 
@@ -392,6 +400,8 @@ class LilyPondTransform(base.Transform):
                     yield result
             elif isinstance(i.obj, element.Element):
                 yield i.obj
+            elif i.name == "list":
+                yield from i.obj
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -799,37 +809,31 @@ class MusicBuilder:
             self._unbound.append(art)
             return False
 
-    def add_spanner_id(self, node):
-        """Return True if the node could be added to a spanner id that's being built."""
+    def _add_argument(self, node, cls, count):
+        """Return True if the node could be added to an event of type ``cls``
+        that's being built and has less than ``count`` arguments."""
         e = self._events
-        if e and isinstance(e[-1], lily.SpannerId) and len(e[-1]) == 0:
+        if e and isinstance(e[-1], cls) and \
+                sum(not isinstance(n, base.Comment) for n in e[-1]) < count:
             e[-1].append(node)
             return True
         return False
 
+    def add_spanner_id(self, node):
+        """Return True if the node could be added to a spanner id that's being built."""
+        return self._add_argument(node, lily.SpannerId, 1)
+
     def add_tweak(self, node):
         """Return True if the node could be added to a Tweak that's being built."""
-        e = self._events
-        if e and isinstance(e[-1], lily.Tweak) and len(e[-1]) < 2:
-            e[-1].append(node)
-            return True
-        return False
+        return self._add_argument(node, lily.Tweak, 2)
 
     def add_tag(self, node):
         r"""Return True if the node could be added to a ``\tag`` command that's being built."""
-        e = self._events
-        if e and isinstance(e[-1], lily.Tag) and len(e[-1]) < 1:
-            e[-1].append(node)
-            return True
-        return False
+        return self._add_argument(node, lily.Tag, 1)
 
     def add_shape(self, node):
         r"""Return True if the node could be added to a ``\shape`` command that's being built."""
-        e = self._events
-        if e and isinstance(e[-1], lily.Shape) and len(e[-1]) < 2:
-            e[-1].append(node)
-            return True
-        return False
+        return self._add_argument(node, lily.Shape, 2)
 
     def add_event_argument(self, node):
         r"""Try to add the node as argument to a spanner_id, tweak, tag, or shape."""
@@ -1184,9 +1188,17 @@ class MusicBuilder:
         """Called for ``script`` context: an articulation."""
         self.add_articulation(obj)
 
-    @_context("string", "scheme", "list")
+    @_context("list")
+    def list(self, obj):
+        """Called for ``list`` context: an element and possibly comments."""
+        node, *comments = obj
+        yield from self.string_scheme(node)
+        for comment in comments:
+            yield from self.comment(comment)
+
+    @_context("string", "scheme")
     def string_scheme(self, obj):
-        """Called for ``string``, ``scheme`` or ``list`` context."""
+        """Called for ``string`` or ``scheme`` context."""
         if self._events:
             # after a direction: an articulation
             if not self.add_event_argument(obj):
-- 
2.43.0


From 5fc8b2969af5ae04642f7e65c7fee9a8c4eb05e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 056/142] fix: keep the contents of markup after a comment

---
 quickly/lang/lilypond.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index e608eec..e908db5 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -473,9 +473,13 @@ class LilyPondTransform(base.Transform):
 
         """
         origin = markup[:1]     # the \markup or \markuplist command
+        nodes = []
         for mkup in self.read_markup_arguments(itertools.chain(markup[1:], items)):
-            yield self.factory(lily.Markup, origin, (), mkup)
-            break
+            nodes.append(mkup)
+            if not isinstance(mkup, base.Comment):
+                break
+        if nodes:
+            yield self.factory(lily.Markup, origin, (), *nodes)
 
     def read_markup_arguments(self, items):
         """Read from items and yield nodes that can occur in markup."""
-- 
2.43.0


From cc190de1cbaf3f9a5c1b07124f3c533803d491c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 057/142] fix: keep comments after articulations of a rest or
 chord in place

---
 quickly/lang/lilypond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index e908db5..fed96a9 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1242,12 +1242,12 @@ class MusicBuilder:
         Comments are preserved as good as possible.
 
         """
-        if self._modifier:
-            self._modifier.append(obj)
-        elif self._events:
+        if self._events:
             self._events[-1].append(obj)
         elif self._articulations:
             self._articulations.append(obj)
+        elif self._modifier:
+            self._modifier.append(obj)
         elif not self._music and not self._duration:
             # no pending music
             yield obj
-- 
2.43.0


From 0ca0c67eb50685f07736f265ff7fa26442a2f22b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 058/142] fix: read a duration after a lyric syllable and a
 comment

---
 quickly/lang/lilypond.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index fed96a9..804df86 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -556,14 +556,22 @@ class LilyPondTransform(base.Transform):
 
         """
         p = None
+        comments = []   # between a syllable and a possible duration
         for n in nodes:
+            if p and isinstance(n, base.Comment):
+                comments.append(n)
+                continue
             if isinstance(n, lily.Unpitched):
                 p = p or lily.LyricItem()
+                p.extend(comments)
                 p.extend(n)
+                comments.clear()
                 yield p
             else:
                 if p:
                     yield p
+                    yield from comments
+                    comments.clear()
                 if isinstance(n, (lily.String, lily.Symbol, lily.Scheme, lily.Markup)):
                     p = lily.LyricItem(n)
                     continue
@@ -571,6 +579,7 @@ class LilyPondTransform(base.Transform):
             p = None
         if p:
             yield p
+            yield from comments
 
     # dispatchers for common types
     _pitch = Dispatcher()
-- 
2.43.0


From 024c1ccf22074b14c17fd59c397a3ffb31993306 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 059/142] fix: make the sum and difference of transposers work

---
 quickly/transpose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index f83112f..433447e 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -89,6 +89,7 @@ class Transposer(AbstractTransposer):
 
     def __add__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps + other.steps, 7)
         t.octave = self.octave + other.octave + doct
         t.alter = self.alter + other.alter - doct * 6
@@ -96,9 +97,10 @@ class Transposer(AbstractTransposer):
 
     def __sub__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps - other.steps, 7)
         t.octave = self.octave - other.octave + doct
-        t.alter = self.alter - other.alter + doct * 6
+        t.alter = self.alter - other.alter - doct * 6
         return t
 
 
-- 
2.43.0


From 0a74180b858182db30340b5777cc4b2d74db9932 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 060/142] fix: transpose \fixed music by the right octave

---
 quickly/transpose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 433447e..6a95fd1 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -202,9 +202,10 @@ class Transpose(edit.Edit):
             for note in nodes:
                 if isinstance(note, lily.Pitchable) and writable(note):
                     # we may change this note, modify the octave
-                    offset = self.transposer.octave
                     with processor.process(note) as p:
+                        octave = p.octave
                         self.transposer.transpose(p)
+                        offset = p.octave - octave
                 else:
                     offset = 0
                 for p in transpose_pitches(nodes):
-- 
2.43.0


From 2d72c2ecdbe3ea6888afd81c94799433005353fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 061/142] fix: write the right octave check when transposing
 \relative music

---
 quickly/transpose.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 6a95fd1..6b7c248 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -249,8 +249,6 @@ class Transpose(edit.Edit):
                     with processor.process(start_note) as p:
                         self.transposer.transpose(p)
                     last_pitch.transposed = p
-                    last_pitch.octave -= self.transposer.octave
-                    last_pitch.transposed.octave -= self.transposer.octave
             else:
                 last_pitch = Pitch(-1, 3, 0) if relative_first_pitch_absolute else Pitch(0, 0, 0)
 
-- 
2.43.0


From 1ea460337bf59fe33e483554f51e9946e4382dc3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 062/142] fix: transpose markup scores and \transpose inside
 \relative as absolute

---
 quickly/transpose.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 6b7c248..fc85d31 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -22,7 +22,7 @@
 Transpose pitches.
 """
 
-from .dom import edit, lily, util
+from .dom import edit, lily, scm, util
 from .pitch import Pitch, PitchProcessor
 
 
@@ -158,17 +158,23 @@ class Transpose(edit.Edit):
                     transpose_absolute(n)   # e.g. notes in markup scores
                 elif isinstance(n, (lily.Key, lily.Inversion)):
                     transpose_no_octave(n)
-                elif isinstance(n, lily.Absolute):
-                    transpose_absolute(n)
+                elif isinstance(n, (lily.Absolute, lily.MarkupScore, scm.LilyPond)):
+                    transpose_absolute(n)   # not affected by \relative or \fixed
                 elif isinstance(n, lily.Relative):
                     transpose_relative(n)
                 elif isinstance(n, lily.Fixed):
                     transpose_fixed(n)
                 elif isinstance(n, lily.Transpose):
-                    pitches, rest = n[:2], n[2:]
+                    pitches, rest = [], []
+                    for c in util.skip_comments(n):
+                        is_pitch = len(pitches) < 2 and isinstance(c, lily.Pitchable)
+                        (pitches if is_pitch else rest).append(c)
                     for p in transpose_pitches(pitches):
                         p.octave -= self.transposer.octave
-                    yield from notes(rest)
+                    if relative_mode:
+                        transpose_absolute(rest)    # not affected by \relative
+                    else:
+                        yield from notes(rest)
                 elif isinstance(n, (lily.Transposition, lily.StringTuning)):
                     pass    # don't change child nodes
                 elif relative_mode and isinstance(n, (lily.Chord, lily.OctaveCheck)):
-- 
2.43.0


From 926bf755989b75a39d5f62b8254e675f0209d966 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 063/142] fix: respect a surrounding \relative or \fixed when
 transposing a selection

---
 quickly/transpose.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index fc85d31..e4099ed 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -137,14 +137,14 @@ class Transpose(edit.Edit):
         node = r.ancestor()
         processor = self.processor or PitchProcessor()
 
-        if not node.is_root():
-            processor.find_language(node)
-
         relative_first_pitch_absolute = self.relative_first_pitch_absolute
         if relative_first_pitch_absolute is None:
             relative_first_pitch_absolute = util.lilypond_version(node) >= (2, 18)
 
-        writable = (lambda n: True) if r.is_full() else (lambda n: n in r)
+        # always start at the root, because the meaning of pitches depends on
+        # language, and on a surrounding \relative or \fixed
+        root = node.root()
+        writable = (lambda n: True) if r.is_full() and node is root else (lambda n: n in r)
 
         def notes(nodes, relative_mode=False):
             """Yield notes (lily.Pitchable) to be transposed.
@@ -279,7 +279,7 @@ class Transpose(edit.Edit):
                             last_pitch.transposed = p
                             processor.write_node(note, p)
         # Do it!
-        transpose_absolute((node,))
+        transpose_absolute((root,))
 
 
 def transpose(music, transposer):
-- 
2.43.0


From ded162c9ae65d93ca45615916061c24f947055a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 064/142] fix: let the octave check determine the octave when
 transposing

---
 quickly/transpose.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index e4099ed..3a95890 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -226,6 +226,8 @@ class Transpose(edit.Edit):
                 default_octave = p.octave - note.octave # the octave of the pitch name itself
                 # absolute pitch determined from untransposed pitch of last_pitch
                 p.make_absolute(last_pitch, default_octave)
+                if note.oct_check is not None:
+                    p.octave = note.oct_check + default_octave  # a check has the last word
                 if not writable(note):
                     return p
                 # we may change this pitch. Make it relative against the
-- 
2.43.0


From 82ca9f4153efc6a95939b19a797a21cac0a5ebc6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 065/142] fix: keep a comment at the end of a chord or markup
 inside its brackets

---
 quickly/dom/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index 5e8d3db..71be941 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -160,10 +160,15 @@ def skip_comments(node):
 
 
 def pop_comments(node):
-    """Pop and return comments off the end of node (and/or its children)."""
+    """Pop and return comments off the end of node (and/or its children).
+
+    Comments before the tail (e.g. a closing brace) of a node are left alone.
+
+    """
     from .base import Comment
+    from .element import BlockElement
     comments = []
-    while len(node):
+    while len(node) and not isinstance(node, BlockElement):
         if isinstance(node[-1], Comment):
             comments.append(node.pop())
         else:
-- 
2.43.0


From 77dadf23806c8108b74e45ffed884daab227988b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 066/142] fix: do not change the octave of an added inversion
 in chord mode

---
 quickly/relative.py  | 4 ++--
 quickly/transpose.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e969e84..1ad1a85 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -77,7 +77,7 @@ class Rel2abs(edit.Edit):
                 elif isinstance(n, lily.Relative):
                     make_absolute(n)
                 elif isinstance(n, (
-                        lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
+                        lily.AddInversion, lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
                         lily.Transpose, lily.Transposition, lily.StringTuning,
                     )):
                     pass
@@ -252,7 +252,7 @@ class Abs2rel(edit.Edit):
                         stack.append(relative_note(note, last_pitch))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
-                    lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
+                    lily.AddInversion, lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
                     lily.Transpose, lily.Transposition, lily.StringTuning,
                 )):
                     pass
diff --git a/quickly/transpose.py b/quickly/transpose.py
index 3a95890..cfbe99f 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -156,7 +156,7 @@ class Transpose(edit.Edit):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     transpose_absolute(n)   # e.g. notes in markup scores
-                elif isinstance(n, (lily.Key, lily.Inversion)):
+                elif isinstance(n, (lily.Key, lily.Inversion, lily.AddInversion)):
                     transpose_no_octave(n)
                 elif isinstance(n, (lily.Absolute, lily.MarkupScore, scm.LilyPond)):
                     transpose_absolute(n)   # not affected by \relative or \fixed
-- 
2.43.0


From f11649a3460d1ed45d2e6eeb6ec753676070967a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 067/142] fix: keep comments between a rest, chord or skip and
 the duration at their place; a duration after \rest is a separate note

---
 quickly/lang/lilypond.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 804df86..362ec63 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -931,8 +931,14 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
-        if self._duration or self._articulations or self._events:
+        if self._duration or self._articulations or self._events \
+                or isinstance(self._modifier, lily.RestModifier):
+            # the duration does not belong to the preceding music
             yield from self.pending_music()
+        elif self._music and not self._modifier:
+            # comments between the music and the duration
+            self._music.extend(self._comments)
+            self._comments.clear()
         self._duration = [token]
 
     @_action(a.Delimiter.Direction)
-- 
2.43.0


From 9bbd9e4146ae05a844af809f91a1c61effb19b30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 068/142] fix: determine the notes in the selection before
 transposing them

---
 quickly/transpose.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index cfbe99f..090ba62 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -144,7 +144,14 @@ class Transpose(edit.Edit):
         # always start at the root, because the meaning of pitches depends on
         # language, and on a surrounding \relative or \fixed
         root = node.root()
-        writable = (lambda n: True) if r.is_full() and node is root else (lambda n: n in r)
+        if r.is_full() and node is root:
+            writable = lambda n: True
+        else:
+            # look now, the boundaries may shift when pitches get an octave
+            nodes = set(id(n) for n in node // lily.Pitchable if n in r)
+            if isinstance(node, lily.Pitchable) and node in r:
+                nodes.add(id(node))
+            writable = lambda n: id(n) in nodes
 
         def notes(nodes, relative_mode=False):
             """Yield notes (lily.Pitchable) to be transposed.
-- 
2.43.0


From 7be53088a284cd77c31dc1b0963dca207e7f0789 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 069/142] fix: let \octaveCheck correct the octave of the
 previous pitch, as LilyPond does

---
 quickly/pitch.py     | 11 +++++++++++
 quickly/relative.py  |  5 +++--
 quickly/transpose.py |  9 ++++++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 529f493..837ac13 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -208,6 +208,17 @@ class Pitch:
         l = len(scale or MAJOR_SCALE)
         self.octave -= prev_pitch.octave - (self.note - prev_pitch.note + 3) // l - default_octave
 
+    def octave_check(self, check_pitch, scale=None):
+        r"""Correct our octave in such a way that the ``check_pitch``, when made
+        relative to us, gets its own octave.
+
+        This is what LilyPond does with the previous pitch when an
+        ``\octaveCheck`` fails; it has no effect when the check succeeds.
+
+        """
+        l = len(scale or MAJOR_SCALE)
+        self.octave = check_pitch.octave + (check_pitch.note - self.note + 3) // l
+
 
 class PitchProcessor:
     """Read and write pitch names in all LilyPond languages.
diff --git a/quickly/relative.py b/quickly/relative.py
index 1ad1a85..fc5ad4e 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -117,9 +117,10 @@ class Rel2abs(edit.Edit):
                             stack.append(p)
                     last_pitch = stack[:2][-1]  # first note of chord, or the old if chord was empty
                 elif isinstance(n, lily.OctaveCheck):
-                    # OctaveCheck, read last_pitch but remove
+                    # OctaveCheck, correct last_pitch but remove
                     for note in notes(n):
-                        last_pitch = processor.read_node(note)
+                        last_pitch = last_pitch.copy()
+                        last_pitch.octave_check(processor.read_node(note))
                     n.parent.remove(n)
         # Do it!
         nodes = r.instances_of((lily.Language, lily.Include, lily.Relative))
diff --git a/quickly/transpose.py b/quickly/transpose.py
index 090ba62..4bb8ae1 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -279,14 +279,17 @@ class Transpose(edit.Edit):
                         stack.append(transpose(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first note of chord, or the old if chord was empty
                 elif isinstance(n, lily.OctaveCheck):
-                    # OctaveCheck, also transpose and keep as new last_pitch
+                    # OctaveCheck, also transpose and correct the last_pitch
                     for note in notes(n):
                         p = processor.read_node(note)
-                        last_pitch = p.copy()
+                        transposed = getattr(last_pitch, "transposed", last_pitch).copy()
+                        last_pitch = last_pitch.copy()
+                        last_pitch.octave_check(p)
                         if writable(note):
                             self.transposer.transpose(p)
-                            last_pitch.transposed = p
                             processor.write_node(note, p)
+                        transposed.octave_check(p)
+                        last_pitch.transposed = transposed
         # Do it!
         transpose_absolute((root,))
 
-- 
2.43.0


From 462cbd6503f9d5a247a3664d7698a38f7f2277a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 070/142] fix: let the octave check determine the octave in
 rel2abs

---
 quickly/relative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/relative.py b/quickly/relative.py
index fc5ad4e..2c4ae07 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -106,6 +106,8 @@ class Rel2abs(edit.Edit):
                     with processor.process(n) as p:
                         default_octave = p.octave - n.octave # the octave of the pitch name itself
                         p.make_absolute(last_pitch, default_octave)
+                        if n.oct_check is not None:
+                            p.octave = n.oct_check + default_octave # a check has the last word
                         last_pitch = p
                 elif isinstance(n, lily.Chord):
                     # chord
@@ -114,6 +116,8 @@ class Rel2abs(edit.Edit):
                         with processor.process(note) as p:
                             default_octave = p.octave - note.octave # the octave of the pitch name itself
                             p.make_absolute(stack[-1], default_octave)
+                            if note.oct_check is not None:
+                                p.octave = note.oct_check + default_octave
                             stack.append(p)
                     last_pitch = stack[:2][-1]  # first note of chord, or the old if chord was empty
                 elif isinstance(n, lily.OctaveCheck):
-- 
2.43.0


From 32b4b3a31ec0d65d076a1fdd873efd03b9da90fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 071/142] fix: do not skip the note after an \octaveCheck in
 rel2abs

---
 quickly/relative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 2c4ae07..1867404 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -66,7 +66,8 @@ class Rel2abs(edit.Edit):
 
         def notes(nodes):
             """Yield note/rest, chord and octavecheck; follow pitch language."""
-            for n in processor.follow_language(nodes):
+            # use a copy, as nodes may be replaced or removed
+            for n in processor.follow_language(list(nodes)):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     # music in markup expressions?
-- 
2.43.0


From 03d2d145f5c0c14d86fc7f08c357c3ff19bec682 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 072/142] fix: handle markup scores and nested \relative inside
 \transpose, \absolute or \fixed in rel2abs

---
 quickly/relative.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 1867404..502584f 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -22,9 +22,12 @@
 Utilities and functions to manipulate music written in relative pitches.
 """
 
-from .dom import edit, lily, util
+from .dom import edit, lily, scm, util
 from .pitch import Pitch, PitchProcessor
 
+#: music in these nodes is not affected by a surrounding ``\\relative``
+ABSOLUTE = (lily.Absolute, lily.Fixed, lily.Transpose, lily.MarkupScore, scm.LilyPond)
+
 
 class Rel2abs(edit.Edit):
     r"""Convert ``\relative`` music to absolute.
@@ -70,21 +73,29 @@ class Rel2abs(edit.Edit):
             for n in processor.follow_language(list(nodes)):
                 if isinstance(n, lily.Pitchable):
                     yield n
-                    # music in markup expressions?
-                    for n in node.instances_of(lily.Relative):
-                        make_absolute(n)
+                    convert(n)  # music in markup expressions?
                 elif isinstance(n, (lily.Chord, lily.OctaveCheck)):
                     yield n
                 elif isinstance(n, lily.Relative):
                     make_absolute(n)
                 elif isinstance(n, (
-                        lily.AddInversion, lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-                        lily.Transpose, lily.Transposition, lily.StringTuning,
+                        lily.AddInversion, lily.Inversion, lily.Key,
+                        lily.Transposition, lily.StringTuning,
                     )):
                     pass
+                elif isinstance(n, ABSOLUTE):
+                    convert(n)
                 else:
                     yield from notes(n)
 
+        def convert(node):
+            """Convert relative music that's inside this node, which is not
+            affected itself by a surrounding ``\\relative``."""
+            nodes = list(node.instances_of((lily.Language, lily.Include, lily.Relative)))
+            for n in processor.follow_language(nodes):
+                if isinstance(n, lily.Relative):
+                    make_absolute(n)
+
         def make_absolute(node):
             """Convert this relative music to absolute music."""
             parent = node.parent
-- 
2.43.0


From 1a2aefcbaa5e33a4f544790e858831b6c1768746 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 073/142] fix: do not drop comments between \relative and its
 arguments in rel2abs

---
 quickly/relative.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 502584f..d51a1ba 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -101,10 +101,11 @@ class Rel2abs(edit.Edit):
             parent = node.parent
             index = parent.index(node)
 
-            nodes = list(util.skip_comments(node))
-            if len(nodes) > 1 and isinstance(nodes[0], lily.Pitch):
-                start_note, *nodes = nodes
-                last_pitch = processor.read_node(start_note)
+            nodes = list(node)
+            start = next(util.skip_comments(node), None)
+            if isinstance(start, lily.Pitch) and sum(1 for n in util.skip_comments(node)) > 1:
+                nodes = [n for n in nodes if n is not start]
+                last_pitch = processor.read_node(start)
             elif first_pitch_absolute:
                 last_pitch = Pitch(-1, 3, 0)
             else:
-- 
2.43.0


From ce82cec10458ac1a08b463b8c585d905ba4ab550 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 074/142] fix: rel2abs: follow the pitch language from before
 the selection, and skip \relative inside other \relative that is not
 converted

---
 quickly/relative.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index d51a1ba..d94bfc8 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -29,6 +29,23 @@ from .pitch import Pitch, PitchProcessor
 ABSOLUTE = (lily.Absolute, lily.Fixed, lily.Transpose, lily.MarkupScore, scm.LilyPond)
 
 
+def in_relative(node):
+    r"""Return True if the node is affected by a surrounding ``\relative``."""
+    for n in node.ancestors():
+        if isinstance(n, lily.Relative):
+            return True
+        elif isinstance(n, ABSOLUTE):
+            return False
+    return False
+
+
+def follow_language(processor, node):
+    """Follow the language changes in a node that is not processed itself."""
+    for n in processor.follow_language([node]):
+        for n in processor.follow_language(n // (lily.Language, lily.Include)):
+            pass
+
+
 class Rel2abs(edit.Edit):
     r"""Convert ``\relative`` music to absolute.
 
@@ -59,9 +76,7 @@ class Rel2abs(edit.Edit):
         """Do the pitch conversion."""
         node = r.ancestor()
         processor = self.processor or PitchProcessor()
-
-        if not node.is_root():
-            processor.find_language(node)
+        processor.find_language(r.start_node() or node)
 
         first_pitch_absolute = self.first_pitch_absolute
         if first_pitch_absolute is None:
@@ -140,10 +155,15 @@ class Rel2abs(edit.Edit):
                         last_pitch.octave_check(processor.read_node(note))
                     n.parent.remove(n)
         # Do it!
-        nodes = r.instances_of((lily.Language, lily.Include, lily.Relative))
-        for n in processor.follow_language(nodes):
-            if isinstance(n, lily.Relative) and r.in_range():
+        nodes = []
+        for n in r.instances_of((lily.Language, lily.Include, lily.Relative)):
+            # look now if we want the node, because the range may become invalid
+            nodes.append((n, isinstance(n, lily.Relative) and r.in_range() and not in_relative(n)))
+        for n, wanted in nodes:
+            if wanted:
                 make_absolute(n)
+            else:
+                follow_language(processor, n)
 
 
 def rel2abs(music):
-- 
2.43.0


From 5fba7fb75362ae66276fbaa6c13cae3255d193bb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 075/142] fix: abs2rel: follow the pitch language outside the
 music that is converted

---
 quickly/relative.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index d94bfc8..0aae253 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -219,18 +219,17 @@ class Abs2rel(edit.Edit):
 
         processor = self.processor or PitchProcessor()
 
-        if not node.is_root():
-            processor.find_language(node)
-
+        processor.find_language(node)
         return processor, first_pitch_absolute
 
     def edit_range(self, r):
         """Do the pitch conversion."""
-        processor, first_pitch_absolute = self._get_settings(r.ancestor())
+        processor, first_pitch_absolute = self._get_settings(r.start_node() or r.ancestor())
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
-            for n in r.instances_of((lily.MusicList, lily.Relative, lily.ChordMode)):
+            for n in r.instances_of((
+                    lily.MusicList, lily.Relative, lily.ChordMode, lily.Language, lily.Include)):
                 if isinstance(n, lily.MusicList):
                     if any(n / lily.Pitchable) and r.in_range():
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
@@ -238,6 +237,8 @@ class Abs2rel(edit.Edit):
                         abs2rel()
                 elif isinstance(n, lily.ChordMode):
                     r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
+                else:
+                    follow_language(processor, n)
 
         # Do it!
         abs2rel()
-- 
2.43.0


From a51842a70021017c4c0573f3ffbfb29315561c54 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 076/142] fix: convert the notes of chords in abs2rel

---
 quickly/relative.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 0aae253..24fe498 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -287,8 +287,9 @@ class Abs2rel(edit.Edit):
                     last_pitch = relative_note(n, last_pitch)
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
-                    for note in n / lily.Pitchable:
-                        stack.append(relative_note(note, last_pitch))
+                    for note in n.instances_of((lily.Pitchable,) + ABSOLUTE):
+                        if isinstance(note, lily.Pitchable):
+                            stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
                     lily.AddInversion, lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-- 
2.43.0


From 99c80ce831d76ff2a34516c655d3733ecd410959 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 077/142] fix: do not convert music inside \relative or markup
 scores in abs2rel

---
 quickly/relative.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 24fe498..7f1f795 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -292,10 +292,10 @@ class Abs2rel(edit.Edit):
                             stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
-                    lily.AddInversion, lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-                    lily.Transpose, lily.Transposition, lily.StringTuning,
-                )):
-                    pass
+                    lily.AddInversion, lily.Inversion, lily.Key, lily.Relative,
+                    lily.Transposition, lily.StringTuning,
+                ) + ABSOLUTE):
+                    follow_language(processor, n)
                 else:
                     last_pitch = relative_notes(n, last_pitch)
             return last_pitch
-- 
2.43.0


From 78b48de89529cb634025449986459a0196587611 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 078/142] fix: handle octave checks in abs2rel

---
 quickly/relative.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quickly/relative.py b/quickly/relative.py
index 7f1f795..80d461c 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -278,6 +278,9 @@ class Abs2rel(edit.Edit):
                 if last_pitch is None:
                     last_pitch = get_first_pitch(p)
                 lp = p.copy()
+                if node.oct_check is not None:
+                    # in absolute music a check has no effect
+                    node.oct_check = p.octave - default_octave
                 p.make_relative(last_pitch, default_octave)
             return lp
 
@@ -291,6 +294,12 @@ class Abs2rel(edit.Edit):
                         if isinstance(note, lily.Pitchable):
                             stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
+                elif isinstance(n, lily.OctaveCheck):
+                    # leave unchanged, but if it fails it corrects last_pitch
+                    for note in n / lily.Pitchable:
+                        p = processor.read_node(note)
+                        last_pitch = (last_pitch or get_first_pitch(p)).copy()
+                        last_pitch.octave_check(p)
                 elif isinstance(n, (
                     lily.AddInversion, lily.Inversion, lily.Key, lily.Relative,
                     lily.Transposition, lily.StringTuning,
-- 
2.43.0


From 4bc9bad1fd726a916f61ad923c3fe756c11f916b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 079/142] fix: write the start pitch in abs2rel in the language
 that's valid at its place

---
 quickly/relative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 80d461c..e8ec783 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -259,13 +259,14 @@ class Abs2rel(edit.Edit):
     def _make_relative_internal(self, node, processor, first_pitch_absolute):
         """Implementation of make_relative() with settings."""
         rel = lily.Relative()
+        language = processor.language   # that's valid before the node
 
         def get_first_pitch(p):
             if self.start_pitch:
                 last_pitch = Pitch(p.octave, 0, 0)
                 if p.note > 3:
                     last_pitch.octave += 1
-                rel.append(processor.pitchable(last_pitch, lily.Pitch))
+                rel.append(PitchProcessor(language).pitchable(last_pitch, lily.Pitch))
             elif first_pitch_absolute:
                 last_pitch = Pitch(-1, 3, 0)
             else:
-- 
2.43.0


From e88944664e1b936f3e2bf161fa73b971b323d6ac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 080/142] fix: do not write \relative between \simultaneous,
 \sequential or \alternative and the music list

---
 quickly/relative.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e8ec783..6c9af84 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -229,9 +229,14 @@ class Abs2rel(edit.Edit):
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
             for n in r.instances_of((
-                    lily.MusicList, lily.Relative, lily.ChordMode, lily.Language, lily.Include)):
-                if isinstance(n, lily.MusicList):
-                    if any(n / lily.Pitchable) and r.in_range():
+                    lily.MusicList, lily.Sequential, lily.Simultaneous,
+                    lily.Relative, lily.ChordMode, lily.Language, lily.Include)):
+                if isinstance(n, (lily.MusicList, lily.Sequential, lily.Simultaneous)):
+                    # these commands need a music list, don't put \relative in between
+                    need_list = (lily.Sequential, lily.Simultaneous, lily.Alternative)
+                    music = n if isinstance(n, lily.MusicList) else next(n / lily.MusicList, ())
+                    if any(isinstance(m, lily.Pitchable) for m in music) and r.in_range() \
+                            and not isinstance(n.parent, need_list):
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                     else:
                         abs2rel()
-- 
2.43.0


From 7330e4c8d048305474b6da48cc5900d947ab0699 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 081/142] fix: do not take a selection inside \relative for
 absolute music in abs2rel

---
 quickly/relative.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 6c9af84..ef960f6 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -231,7 +231,10 @@ class Abs2rel(edit.Edit):
             for n in r.instances_of((
                     lily.MusicList, lily.Sequential, lily.Simultaneous,
                     lily.Relative, lily.ChordMode, lily.Language, lily.Include)):
-                if isinstance(n, (lily.MusicList, lily.Sequential, lily.Simultaneous)):
+                if in_relative(n):
+                    # a selection inside \relative music
+                    follow_language(processor, n)
+                elif isinstance(n, (lily.MusicList, lily.Sequential, lily.Simultaneous)):
                     # these commands need a music list, don't put \relative in between
                     need_list = (lily.Sequential, lily.Simultaneous, lily.Alternative)
                     music = n if isinstance(n, lily.MusicList) else next(n / lily.MusicList, ())
-- 
2.43.0


From fe70d08a782c080900c83f4c44bf2487dfb8a0d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 082/142] fix: rhythm edits: don't handle the individual notes
 of a chord

---
 quickly/rhythm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 9df764c..5b88a85 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -47,6 +47,9 @@ class EditRhythm(edit.Edit):
                 # as of LilyPond 2.23.6)
                 if isinstance(n, lily.Skip) and not any(n / lily.Duration):
                     continue
+                # the notes in a chord have no duration of their own
+                if isinstance(n.parent, lily.ChordBody):
+                    continue
                 yield n
 
     @staticmethod
-- 
2.43.0


From 6b2cf62760b361dc5e1f83aa3fe73fdc8dc0d402 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 083/142] fix: rhythm edits: keep a duration if a bare duration
 follows after a comment or a nested expression

---
 quickly/rhythm.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 5b88a85..1e5e492 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -32,7 +32,7 @@ or any :class:`~.dom.element.Element` node (DOM tree).
 import itertools
 
 
-from .dom import edit, lily, util
+from .dom import base, edit, lily, util
 from .duration import duration
 
 
@@ -57,8 +57,8 @@ class EditRhythm(edit.Edit):
         """Return True if the duration of this node may be removed.
 
         A duration may not be removed if ``node.duration_required`` is True,
-        or when the node's right sibling has only the duration visible, such as
-        is the case with an unpitched note or an empty lyric item.
+        or when the music right after the node has only the duration visible,
+        such as is the case with an unpitched note or an empty lyric item.
 
         In that case, the current duration may not be removed, because the next
         duration would then be understood as the duration of the current node
@@ -69,12 +69,20 @@ class EditRhythm(edit.Edit):
             return False
         elif any(node / lily.Articulations):
             return True
-        n = node.right_sibling()
-        if n:
-            if isinstance(n, lily.Unpitched):
-                return False
-            elif isinstance(n, lily.LyricItem) and n.duration_required:
-                return False
+        # what comes next in the text? (node can be the last of e.g. a \grace)
+        n = node
+        while n is not None:
+            for s in n.right_siblings():
+                if isinstance(s, base.Comment):
+                    continue
+                elif isinstance(s, lily.Unpitched):
+                    return False
+                elif isinstance(s, lily.LyricItem) and s.duration_required:
+                    return False
+                return True
+            n = n.parent
+            if n is not None and n.write_tail():
+                break
         return True
 
     def edit_range(self, r):
-- 
2.43.0


From 1b83bef2597544f31f89edfd29ed97825db318b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 084/142] fix: CopyRhythm: the duration of a \skip is not used
 for the next note

---
 quickly/rhythm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 1e5e492..8d6038b 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -272,11 +272,13 @@ class CopyRhythm(EditRhythm):
                 prev = None
                 for n in self.durables(r):
                     dur = n.duration_scaling
-                    if dur:
+                    if not dur:
+                        if not prev:
+                            prev = lily.previous_duration(n)
+                        dur = prev
+                    elif n.duration_sets_previous:
                         prev = dur
-                    elif not prev:
-                        prev = lily.previous_duration(n)
-                    yield prev
+                    yield dur
             return list(durations())
         return [n.duration_scaling for n in self.durables(r)]
 
-- 
2.43.0


From 9be05d9aa6a6ca602c355f891ca7dab2fcaa01ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 085/142] fix: bass figures have a duration like other music

---
 quickly/dom/lily.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index e34a8c9..858109f 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2476,13 +2476,15 @@ class MarkupScoreLines(MarkupScore):
     head = r"\score-lines {"
 
 
-class Figure(Music):
+class Figure(Durable):
     """A bass figure in figure mode.
 
     Always has one FigureBody child, which contains the numbers etc.
     Can also have a duration child.
 
     """
+    def child_order(self):
+        yield FigureBody, Duration, Articulations, base.Comment
 
 
 class FigureBody(element.BlockElement):
-- 
2.43.0


From 435119f4ccefc50aa355ae2b17acbf1597b22532 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 086/142] fix: a chord with drum names is not empty

---
 quickly/dom/lily.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 858109f..6aa98f1 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1464,8 +1464,9 @@ class Chord(Durable):
         in accordance with LilyPond's behaviour.
 
         """
-        for body in self:
-            if any(body / Note):
+        for body in self / ChordBody:
+            # don't look for Notes only; in drummode there are other names
+            if any(not isinstance(n, base.Comment) for n in body):
                 return super().time_length(context, end)
         return 0
 
-- 
2.43.0


From 53ca26124324e6ab805b26b3d925f17061cde156 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 087/142] fix: an Edit on a document selection covers exactly
 the selected nodes

---
 quickly/dom/edit.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 406392f..6d40a1a 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -110,12 +110,20 @@ class Edit:
         if cursor.has_selection():
             start_node = d.find_descendant_right(cursor.pos)
             end_node = d.find_descendant_left(cursor.end)
-            if end_node or start_node:
-                r = Range.from_nodes(start_node, end_node, self.range_from_root)
-                if start_node:
-                    start = start_node.pos
-                if end_node:
-                    end = end_node.end
+            if start_node and end_node:
+                start = start_node.pos
+                end = end_node.end
+                # a single selected node is in the range itself
+                ancestor = d if self.range_from_root \
+                    else start_node.parent if start_node is end_node \
+                    else start_node.common_ancestor(end_node)
+                # all children of the end node are also selected
+                while len(end_node):
+                    end_node = end_node[-1]
+                depth = len(ancestor.trail())
+                r = Range(ancestor, start_node.trail()[depth:], end_node.trail()[depth:])
+            else:
+                r = Range(d, None, [])  # empty, there is no node in the selection
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
-- 
2.43.0


From cd222a751f1339f018b7fb685501ea54c3bdcd9c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 088/142] fix: rhythm edits: don't iterate over the range while
 adding or removing durations

---
 quickly/rhythm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 8d6038b..33c74da 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -41,7 +41,9 @@ class EditRhythm(edit.Edit):
     @staticmethod
     def durables(r):
         """Yield all Durable instances in range."""
-        for n in r.nodes():
+        # collect the nodes first, adding or removing a Duration could shift
+        # the boundaries of the range
+        for n in list(r.nodes()):
             if isinstance(n, lily.Durable):
                 # skip \skip with music instead of duration (which is legal
                 # as of LilyPond 2.23.6)
@@ -230,7 +232,7 @@ class RhythmTransform(EditRhythm):
 
     def edit_range(self, r):
         """Transform all durations."""
-        for n in r.nodes():
+        for n in list(r.nodes()):   # removing a scaling could shift the boundary of the range
             if isinstance(n, lily.HandleDuration):
                 dur = n.duration_scaling
                 if dur:
-- 
2.43.0


From e8fc3ea2f99f3304d7f4de9065797931c8050a77 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 089/142] fix: find the previous duration in the order of the
 text

---
 quickly/dom/lily.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 6aa98f1..52ff7f4 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3318,6 +3318,30 @@ def make_list_node(value):
         return Int(value)
 
 
+def preceding_durables(node):
+    r"""Yield the :class:`Durable` nodes of which the duration precedes the
+    duration of the node in the text, backwards.
+
+    In contrast to ``node < Durable``, the contents of a Durable (such as a
+    ``\score`` in a markup that is attached to it) come before the Durable
+    itself, and a Durable the node is part of is yielded as well.
+
+    """
+    def backward(n):
+        for c in reversed(n):
+            yield from backward(c)
+        if isinstance(n, Durable):
+            yield n
+
+    for p, i in node.ancestors_with_index():
+        for n in reversed(p[:i]):
+            yield from backward(n)
+        # the duration of a chord comes after its notes
+        if isinstance(p, Durable) and not isinstance(node, ChordBody):
+            yield p
+        node = p
+
+
 def duration_getter():
     """Return a callable that returns the (duration, scaling) tuple of a
     :class:`Durable`.
@@ -3348,7 +3372,7 @@ def duration_getter():
             return duration
 
         new = {durable}
-        for prev in durable < Durable:
+        for prev in preceding_durables(durable):
             if prev.duration_sets_previous:
                 dur = prev.duration_scaling
                 if dur:
@@ -3382,7 +3406,7 @@ def previous_duration(node):
     notes without duration.
 
     """
-    for n in node < Durable:
+    for n in preceding_durables(node):
         if n.duration_sets_previous:
             for d in n / Duration:
                 return d.duration()
-- 
2.43.0


From 810c67de48c8e4e8e0f17eb7b4d56ebf10162528 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 090/142] fix: variables that are not found have no length

---
 quickly/time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 05b9a0b..8d8c160 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -352,9 +352,12 @@ class TimeContext:
         Returns 0 if the node can't be found or is no music.
 
         """
-        node, scope = node.get_value_with_scope(self.time.scope, self.time.wait)
+        scope = self.time.scope
         while isinstance(node, lily.Reference):
-            node, scope = node.get_value_with_scope(scope, self.time.wait)
+            result = node.get_value_with_scope(scope, self.time.wait)
+            if not result:
+                return 0
+            node, scope = result
         if isinstance(node, lily.Music):
             time = type(self.time)(scope, self.time.wait)
             return node.time_length(self.enter(node, time), None)
-- 
2.43.0


From d3f94aa30d16a89b72cd8e0125c1dd6a0259178c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 091/142] fix: read a key signature with the mode in a variable

---
 quickly/dom/lily.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 52ff7f4..0a9fd68 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2174,8 +2174,10 @@ class Key(element.HeadElement, Music):
                 elif isinstance(n, Mode):
                     mode = n.head
                 elif isinstance(n, IdentifierRef):
-                    scope, n = n.get_value_with_scope(scope, wait)
-                    continue
+                    result = n.get_value_with_scope(scope, wait)
+                    if result:
+                        n, scope = result
+                        continue
                 elif isinstance(n, Scheme):
                     for n in n // scm.List:
                         mode = [n.head for n in n / scm.Number]
-- 
2.43.0


From 4627916ae6132a2d41638b867c88a46c3c22275f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 092/142] fix: read a custom scale in a \key statement

---
 quickly/dom/lily.py | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 0a9fd68..9b2e792 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2179,8 +2179,9 @@ class Key(element.HeadElement, Music):
                         n, scope = result
                         continue
                 elif isinstance(n, Scheme):
-                    for n in n // scm.List:
-                        mode = [n.head for n in n / scm.Number]
+                    for l in n // scm.List:
+                        mode = read_scale_alterations(l)
+                        break
                 break
         if pitch and mode:
             from ..key import KeySignature
@@ -3528,6 +3529,46 @@ def get_int_value(node):
                     return int(v)
 
 
+def read_scale_alterations(node):
+    r"""Return the list of alterations from a :class:`scm.List <.scm.List>`.
+
+    This can be a list of numbers, or a list of pairs (step . alteration), like
+    LilyPond uses in the ``\key`` command. The alteration may also be one of
+    LilyPond's variables, like ``,FLAT``.
+
+    """
+    alterations = {
+        "DOUBLE-FLAT": -1,
+        "THREE-Q-FLAT": fractions.Fraction(-3, 4),
+        "FLAT": fractions.Fraction(-1, 2),
+        "SEMI-FLAT": fractions.Fraction(-1, 4),
+        "NATURAL": 0,
+        "SEMI-SHARP": fractions.Fraction(1, 4),
+        "SHARP": fractions.Fraction(1, 2),
+        "THREE-Q-SHARP": fractions.Fraction(3, 4),
+        "DOUBLE-SHARP": 1,
+    }
+    def get_value(node):
+        while isinstance(node, scm.Quote):
+            node = next(iter(node), None)
+        if isinstance(node, scm.Number):
+            return node.head
+        elif isinstance(node, scm.Identifier):
+            return alterations.get(node.head)
+
+    pairs = list(node / scm.List)
+    if not pairs:
+        return [n.head for n in node / scm.Number]
+    result = [0] * 7
+    for pair in pairs:
+        values = filter_map(get_value, pair)
+        for step in values:
+            for alter in values:
+                if isinstance(step, int):
+                    result[step % 7] = alter
+    return result
+
+
 def filter_map(func, iterable):
     """Call func on every item in iterable and yield the result value if not
     None.
-- 
2.43.0


From 84912752eb933dc164cf6a08d8fe795659e91205 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 093/142] fix: \afterGrace with a variable as first argument

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 9b2e792..ed63fe5 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2386,7 +2386,7 @@ class AfterGrace(element.HeadElement, Music):
 
         """
         for n in self[:end]:
-            if isinstance(n, Music):
+            if isinstance(n, (Music, Reference)):
                 return context.length(n)
         return 0
 
-- 
2.43.0


From 8fc6020ab5f80e9db37389a73c84ea611376d309 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 094/142] fix: time of repeats and their alternatives

---
 quickly/dom/lily.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index ed63fe5..6ac93f1 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1306,9 +1306,38 @@ class Repeat(element.HeadElement, Music):
     head = r'\repeat'
     space_between = space_after_head = " "
 
-    def signatures(self):
-        yield Symbol, INT, MUSIC
-        yield Symbol, INT, MUSIC, Alternative
+    def is_sequential(self):
+        """Return True, the alternatives come after the music."""
+        return True
+
+    def time_length(self, context, end=None):
+        r"""Return the length of this expression, using a
+        :class:`~.time.TimeContext` handler.
+
+        Reimplemented to count the music as often as it is played for all
+        repeat types other than ``volta`` and ``segno``. The position of the
+        alternatives is when they are played for the first time.
+
+        """
+        repeat_type = next((n.head for n in self / (Symbol, String)), None)
+        count = next(filter_map(get_int_value, self), 1)
+        music, alternatives = 0, []
+        for n in self[:end]:
+            if isinstance(n, Alternative):
+                for m in n / MusicList:
+                    context_alt = context.enter(n).enter(m)
+                    alternatives.extend(context_alt.length(c) for c in m if isinstance(c, (Music, Reference)))
+            elif isinstance(n, (Music, Reference)):
+                music += context.length(n)
+        if end is not None or repeat_type in ('volta', 'segno'):
+            return music + sum(alternatives)
+        # the first alternative is repeated if there are less than the count
+        first = max(0, count - len(alternatives)) if alternatives else 0
+        return music * count + sum(alternatives[:1] * first) + sum(alternatives[:count])
+
+    def signatures(self):
+        yield (Symbol, String), INT, MUSIC
+        yield (Symbol, String), INT, MUSIC, Alternative
 
 
 class Alternative(element.HeadElement, Music):
-- 
2.43.0


From 6ad21065c15768508a541e11a60d4a57c855d3f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 095/142] fix: tagged music is music

---
 quickly/dom/lily.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 6ac93f1..46fb6fd 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2578,7 +2578,7 @@ class FigureAlteration(element.MappingElement):
     }
 
 
-class Tag(element.HeadElement):
+class Tag(element.HeadElement, Music):
     r"""A ``\tag`` command."""
     space_after_head = space_between = " "
     head = r'\tag'
@@ -2587,7 +2587,7 @@ class Tag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class KeepWithTag(element.HeadElement):
+class KeepWithTag(element.HeadElement, Music):
     r"""A ``\keepWithTag`` command."""
     space_after_head = space_between = " "
     head = r'\keepWithTag'
@@ -2596,7 +2596,7 @@ class KeepWithTag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class RemoveWithTag(element.HeadElement):
+class RemoveWithTag(element.HeadElement, Music):
     r"""A ``\removeWithTag`` command."""
     space_after_head = space_between = " "
     head = r'\removeWithTag'
-- 
2.43.0


From 2c768ad57851c59b3be7ca072ff0902b9ec174da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 096/142] fix: recognize commands that are not in parce's word
 lists

---
 quickly/lang/lilypond.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 362ec63..56ccc82 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -65,6 +65,16 @@ class LilyPond(parce.lang.lilypond.LilyPond):
         yield r"\\\d+", a.Name.Script.Articulation     # a string number, like ``\1``
         yield from super().music()
 
+    @classmethod
+    def commands(cls, *, list_target=0):
+        """Commands that can occur in all input modes."""
+        # commands we support that are not in parce's list of music commands
+        yield (r"\\(?:slashedGrace|palmMuteOff|voice(?:Five|Six)|"
+            r"(?:slur|phrasingSlur|tie)DashPattern|"
+            r"(?:slur|phrasingSlur|tie)Half(?:Dashed|Solid))"
+            + parce.lang.lilypond.RE_LILYPOND_ID_RIGHT_BOUND), a.Name.Builtin
+        yield from super().commands(list_target=list_target)
+
     @lexicon
     def html_lilypond_tag(cls):
         """LilyPond from inside Html, contents of a <lilypond> </lilypond> tag."""
-- 
2.43.0


From c6211e6862793eb58cb9ce10e2541e1520d2f954 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 097/142] fix: the duration of a selection that ends before the
 articulations of a note

---
 quickly/time.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 8d8c160..ff2a57a 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -144,16 +144,17 @@ class Time:
 
     @staticmethod
     def _music_child(node):
-        """Return the topmost Music child or None."""
-        # avoid picking one note of a chord
-        if isinstance(node, lily.Chord):
-            return node
-        for chord in node << lily.Chord:
-            return chord
+        """Return the youngest Music node or child of a Music node or None."""
         while node:
-            if isinstance(node, lily.Music) or isinstance(node.parent, lily.Music):
+            parent = node.parent
+            if isinstance(node, lily.Music):
+                # avoid picking one note of a chord
+                if not isinstance(parent, lily.ChordBody):
+                    return node
+            # a child of a Durable is a part of it
+            elif isinstance(parent, lily.Music) and not isinstance(parent, lily.Durable):
                 return node
-            node = node.parent
+            node = parent
 
     @staticmethod
     def _preceding_music(node):
-- 
2.43.0


From 6d23a2d548b71f2778418acfbe9fef1727992660 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 098/142] fix: cursor position at the end of music

---
 quickly/time.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quickly/time.py b/quickly/time.py
index ff2a57a..9261612 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -248,6 +248,13 @@ class Time:
         dom = cursor.document().get_transform(self.wait)
         if dom:
             node = dom.find_descendant_right(cursor.pos)
+            # is the cursor at the end of the music it is in?
+            music = None
+            for n in dom.find_descendants(cursor.pos):
+                if isinstance(n, lily.MusicList) and n.pos < cursor.pos < n.end:
+                    music = n
+            if music and not (node and music in node.ancestors()):
+                return self.position(music, True)
             c = self._music_child(node)
             if c:
                 return self.position(c)
-- 
2.43.0


From 17b64cfa866893710afe796adca0e67669c16850 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 099/142] fix: the duration of a selection that ends with a
 note name

---
 quickly/time.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/time.py b/quickly/time.py
index 9261612..5638951 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -278,6 +278,11 @@ class Time:
                     start_node = self._music_child(n)
                     if start_node:
                         n = dom.find_descendant_left(end)
+                        # a note at the end can have e.g. articulations that
+                        # are not in the selection
+                        for m in dom.find_descendants(end - 1):
+                            if isinstance(m, lily.Durable):
+                                n = m
                         if n:
                             end_node = self._music_child(n)
                             if end_node:
-- 
2.43.0


From 9c8c22d7691774f5a74faad4be99912aef4806d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 100/142] fix: write spaces between the arguments of a dash
 pattern

---
 quickly/dom/lily.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 46fb6fd..c55e614 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3073,6 +3073,7 @@ class GrobStyle(element.MappingElement):
 
 class GrobDashPattern(element.MappingElement, _ConvertUnpitchedToInt):
     r"""The commands ``\slur``- ``\tie``- and ``\phrasingSlurDashPattern``."""
+    space_after_head = space_between = " "
     mapping = {
         r'\phrasingSlurDashPattern': 'PhrasingSlur',
         r'\slurDashPattern': 'Slur',
-- 
2.43.0


From 9b3d2d2745f75cdb72027693e278dd4c67d0beac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 101/142] fix: setting the octave to 0 removes the Octave node

---
 quickly/dom/lily.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index c55e614..9d9c967 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -242,9 +242,12 @@ class Pitchable(element.TextElement, Music):
     @octave.setter
     def octave(self, num):
         for n in self / Octave:
-            n.head = num
+            if not num:
+                self.remove(n)
+            else:
+                n.head = num
             return
-        if num != 0:
+        if num:
             self.add(Octave(num))
 
     @octave.deleter
-- 
2.43.0


From ead11224ccb6a1e3e3b06c4bd871b5c90fe61d09 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 102/142] fix: setting the scaling replaces all DurationScaling
 nodes

---
 quickly/dom/lily.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 9d9c967..8e73b6c 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -148,15 +148,16 @@ class HandleDuration(element.Element):
     @scaling.setter
     def scaling(self, value):
         for d in self / Duration:
-            scaling = d / DurationScaling
-            for s in scaling:
+            scalings = list(d / DurationScaling)
+            if scalings:
+                s = scalings[0]
                 if value in (1, None):
                     d.remove(s)
                 elif not isinstance(value, fractions.Fraction):
                     s.head = fractions.Fraction(value).limit_denominator()
                 else:
                     s.head = value
-                for s in scaling:
+                for s in scalings[1:]:
                     d.remove(s)
                 return
             if value not in (1, None):
-- 
2.43.0


From ca0baa2f316365a6e5eb45f546b84a1cf4eac0f9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 103/142] fix: Include.language without filename

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 8e73b6c..fd691bf 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2887,7 +2887,7 @@ class Include(element.HeadElement):
         """
         from .. import pitch
         filename = self.filename
-        if filename.endswith(".ly"):
+        if filename and filename.endswith(".ly"):
             language = filename[:-3]
             if language in pitch.pitch_names:
                 return language
-- 
2.43.0


From 382bce1307363a84f01fa3e42e422c6462415c1e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 104/142] fix: IdentifierRef.with_name

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index fd691bf..982b373 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1109,7 +1109,7 @@ class IdentifierRef(base.BackslashCommand, Reference):
         simple symbol.
 
         """
-        v = cls()
+        v = cls('')
         v.set_name(name)
         return v
 
-- 
2.43.0


From d55a456f1c7fa8b704fe266834ded4fb803f5fc4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 105/142] fix: skip comments after the equalsign in
 Assignment.get_value

---
 quickly/dom/lily.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 982b373..5934590 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1030,7 +1030,9 @@ class Assignment(element.Element):
     def get_value(self):
         """Return the value after the equalsign."""
         for child in self / EqualSign:
-            return child.right_sibling()
+            for node in child.right_siblings():
+                if not isinstance(node, base.Comment):
+                    return node
 
 
 class Identifier(List):
-- 
2.43.0


From 1bafa4ff7ad1e80625052094d27776096cfc1232 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 106/142] fix: a variable has the value of its last assignment

---
 quickly/dom/lily.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 5934590..5b85c2e 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -519,11 +519,15 @@ class _ConvertUnpitchedToInt(element.Element):
 class HandleAssignments(element.Element):
     """Mixin class to handle Assignment children in a convenient way."""
     def find_assignment(self, name):
-        """Find the Assignment with the specified name."""
-        for n in self/Assignment:
-            for v in n/Identifier:
-                if v.get_name() == name:
-                    return n
+        """Find the Assignment with the specified name.
+
+        If there are more, the last one is returned, because that determines
+        the value the variable has.
+
+        """
+        for n in reversed(self):
+            if isinstance(n, Assignment) and n.get_name() == name:
+                return n
 
     def get_variable(self, name):
         """Convenience method to find the value of the named variable.
@@ -572,9 +576,9 @@ class HandleAssignments(element.Element):
         parent.
 
         """
-        assignment = self.find_assignment(name)
-        if assignment:
-            self.remove(assignment)
+        for n in list(self/Assignment):
+            if n.get_name() == name:
+                self.remove(n)
 
     def variables(self):
         """Convenience method to return a list of the available variable names."""
-- 
2.43.0


From 79c10cd9ec8d413d34c7fbfaf9431b6f380cc4e1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 107/142] fix: keep the whitespace around removed or replaced
 text when writing back edits

---
 quickly/dom/element.py | 56 ++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index b5f1117..4ac272b 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -664,8 +664,9 @@ class Element(Node, metaclass=ElementType):
             return isinstance(point.text.__self__, SinglelineComment)
 
         insert_after = ''
+        new_space = new_text = ''   # new text and the whitespace wanted before it
         changed = False     # True if the text just before the point is new or modified
-        line_comment = False    # True if the text just before the point is a new comment
+        line_comment = False    # True if the text just before the point is such a comment
         points = list(self.points())
         in_place = points_in_place(points)
         for index, point in enumerate(points):
@@ -674,7 +675,10 @@ class Element(Node, metaclass=ElementType):
                 # new or moved element
                 text = point.text()
                 if text:
-                    yield pos, pos, space + text
+                    if new_text:
+                        new_text += space + text
+                    else:
+                        new_space, new_text = space, text
                     insert_after = point.space_after
                     changed = True
                     line_comment = is_line_comment(point)
@@ -682,30 +686,56 @@ class Element(Node, metaclass=ElementType):
                 # existing element
                 if point.pos > pos:
                     # see if old content needs to be deleted between pos and point.pos
-                    del_pos = del_end = pos
+                    ins_pos = del_pos = del_end = pos
                     for t in tokens:
                         if t.pos >= point.pos:
                             pos = t.pos
                             break
+                        if del_end == ins_pos:
+                            del_pos = t.pos
                         del_end = t.end
-                    if del_end > del_pos:
-                        if space and del_end < pos:
+                    if del_end > ins_pos:
+                        if del_pos > ins_pos and (new_space if new_text else line_comment):
+                            new_space = ''  # the whitespace before the old content remains
+                            if not new_text:
+                                space = ''
+                        else:
+                            del_pos = ins_pos
+                        if del_end < pos and not line_comment:
+                            space = ''      # the whitespace after the old content remains
+                        elif space or line_comment:
                             del_end = pos   # unparsed space can be ditched
-                        yield del_pos, del_end, space
-                    elif line_comment:
-                        # the existing whitespace might not contain a newline
-                        yield del_pos, del_pos, '\n'
-                elif space and point.pos == pos and (changed or point.modified):
-                    yield point.pos, point.pos, space
+                        yield del_pos, del_end, new_space + new_text + space
+                    elif new_text:
+                        if line_comment:
+                            # the existing whitespace might not contain a newline
+                            new_text += '\n'
+                        yield ins_pos, ins_pos, new_space + new_text
+                else:
+                    if space and point.pos == pos and (changed or point.modified):
+                        new_text += space
+                    if new_text:
+                        yield pos, pos, new_space + new_text
                 # modified?
                 if point.modified:
                     yield point.pos, point.end, point.text()
+                new_space = new_text = ''
                 changed = point.modified
-                line_comment = False
+                line_comment = is_line_comment(point)
                 pos = point.end
                 insert_after = point.space_after
         if pos < end:
-            yield pos, end, ''
+            if new_space:
+                # the whitespace before the old content remains
+                for t in tokens:
+                    if t.pos >= pos:
+                        if t.pos > pos:
+                            pos = t.pos
+                            new_space = ''
+                        break
+            yield pos, end, new_space + new_text
+        elif new_text:
+            yield pos, pos, new_space + new_text
 
     def edit(self, document, context=None, start=None, end=None,):
         """Write back the modifications to the original parce document.
-- 
2.43.0


From 6d0fbb8e98c5dd080ab16f1f6495c5b35faf1431 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 108/142] fix: comments after an unfinished command or a number
 are not part of it

---
 quickly/dom/element.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 4ac272b..9eb079c 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -1087,23 +1087,28 @@ def build_tree(nodes, ignore_type=None):
         while stack and pending:
             # see if this node fits on top of the stack
             node = pending.pop()
-            parent, signatures = stack[-1]
+            parent, signatures, ignored = stack[-1]
             if ignore_type and isinstance(node, ignore_type):
-                parent.add_argument(node)
+                ignored.append(node)
                 continue
             signatures = [s[1:] for s in signatures if isinstance(node, s[0])]
             if signatures:
                 # this fits
+                for n in ignored:
+                    parent.add_argument(n)
+                ignored.clear()
                 parent.add_argument(node)
                 signatures = [s for s in signatures if s]
                 if signatures:
                     # wait for more arguments
-                    stack[-1] = parent, signatures
+                    stack[-1] = parent, signatures, ignored
                     continue
                 # the parent is complete!
             else:
                 # this does not fit, finish this parent and try again
                 pending.append(node)
+                # ignored nodes after the last argument don't belong to it
+                pending.extend(reversed(ignored))
             pending.append(stack.pop()[0])
         yield from reversed(pending)
 
@@ -1116,13 +1121,15 @@ def build_tree(nodes, ignore_type=None):
                 if not signatures:
                     break
             else:
-                stack.append((node, signatures))
+                stack.append((node, signatures, []))
                 continue
         yield from add(node)
 
     # yield pending (unfinished) stuff
     while stack:
-        yield from add(stack.pop()[0])
+        node, signatures, ignored = stack.pop()
+        for n in (node, *ignored):
+            yield from add(n)
 
 
 def head_mapping(*element_types):
-- 
2.43.0


From 22175fb1b35a045cb8d67f5346180d241b3c84db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 109/142] fix: comments after a variable reference are not part
 of it

---
 quickly/lang/lilypond.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 56ccc82..a740fdd 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -296,10 +296,14 @@ class LilyPondTransform(base.Transform):
     start_list = None   # lexicon never creates tokens
 
     def identifier_ref(self, items):
-        """An IdentifierRef element."""
+        """A list with an IdentifierRef element.
+
+        Comments at the end do not belong to the element, and follow it.
+
+        """
         node = self.factory(lily.IdentifierRef, items[:1])
         node.extend(self._list_nodes(items[1:]))
-        return node
+        return [node, *util.pop_comments(node)]
 
     def markup(self, items):
         """A list of flattened markup contents, the markup will be constructed later."""
@@ -410,7 +414,7 @@ class LilyPondTransform(base.Transform):
                     yield result
             elif isinstance(i.obj, element.Element):
                 yield i.obj
-            elif i.name == "list":
+            elif i.name in ("list", "identifier_ref"):
                 yield from i.obj
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
@@ -1252,13 +1256,16 @@ class MusicBuilder:
     @_context("identifier_ref")
     def identifier_ref(self, obj):
         """Called for ``identifier_ref`` context: maybe articulation."""
+        node, *comments = obj
         if self._events:
             # after a direction: add as articulation
-            self.add_articulation(obj)
+            self.add_articulation(node)
         else:
             # toplevel expression
             yield from self.pending_music()
-            yield obj
+            yield node
+        for comment in comments:
+            yield from self.comment(comment)
 
     @_context("singleline_comment", "multiline_comment")
     def comment(self, obj):
-- 
2.43.0


From 6e124cfc0d5405dff665b07534f98ec82a7234bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 110/142] fix: quote the names of rests in variable names

---
 quickly/dom/lily.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 5b85c2e..58072e5 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3343,7 +3343,8 @@ def is_symbol(text):
     """Return True if text is a valid LilyPond symbol."""
     from parce.lang import lilypond, lilypond_words
     return (re.fullmatch(lilypond.RE_LILYPOND_SYMBOL, text) and
-            text not in lilypond_words.all_pitch_names)
+            text not in lilypond_words.all_pitch_names and
+            text not in lilypond_words.rests and text != 'q')
 
 
 def make_list_node(value):
-- 
2.43.0


From 89332a3c2af0b6002185a47d842286fbf2b4f900 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 111/142] fix: don't write successive numbers in a reference as
 a float

---
 quickly/dom/lily.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 58072e5..ce5128a 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1162,7 +1162,9 @@ class IdentifierRef(base.BackslashCommand, Reference):
                 self.head = ''
                 self.append(n)
             for n in nodes:
-                self.append(Separator('.'))
+                # don't write two integers like a floating point number
+                comma = isinstance(n, Int) and len(self) and isinstance(self[-1], Int)
+                self.append(Separator(',' if comma else '.'))
                 self.append(n)
 
 
-- 
2.43.0


From 3fc14d8bfc27c076abadd357ebcd4e0ce2125dc2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 112/142] fix: include files with special characters in the
 filename or url

---
 quickly/dom/scope.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 1bdcda1..5a9d5dc 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -24,7 +24,7 @@ The Scope class finds included documents.
 
 
 import reprlib
-from urllib.parse import urljoin, urlparse
+from urllib.parse import quote, unquote, urljoin, urlparse
 
 import parce.util
 
@@ -124,8 +124,12 @@ class Scope:
 
         urls = []
         def add(base_url):
-            if base_url:
-                u = urljoin(base_url, url)
+            if base_url and url:
+                if urlparse(base_url).scheme:
+                    u = urljoin(base_url, quote(url))
+                else:
+                    # a filename, where e.g. "#" has no special meaning
+                    u = unquote(urljoin(quote(base_url), quote(url)))
                 if u not in skip and u not in urls:
                     urls.append(u)
         if self.relative_include:
@@ -145,7 +149,8 @@ class Scope:
         system. OSErrors raised by the factory are suppressed.
 
         """
-        filename = urlparse(url).path
+        u = urlparse(url)
+        filename = unquote(u.path) if u.scheme else url
         try:
             return self.factory(filename)
         except OSError:
-- 
2.43.0


From 213a13957a8e012a1f6f07ba86fae7bdafaf3dc8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 113/142] fix: an empty included file is an included file

---
 quickly/dom/scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 5a9d5dc..4942b46 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -91,7 +91,7 @@ class Scope:
         """
         for u in self.urls(url):
             doc = self.get_document(u)
-            if doc:
+            if doc is not None:
                 return type(self)(doc, self, self.factory, node)
 
     def ancestors(self):
-- 
2.43.0


From 6304eabf949074d6cfb98850123e7a9dc849c5f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 114/142] fix: included files are LilyPond files, whatever
 their name

---
 quickly/dom/scope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 4942b46..936a953 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -23,6 +23,7 @@ The Scope class finds included documents.
 """
 
 
+import functools
 import reprlib
 from urllib.parse import quote, unquote, urljoin, urlparse
 
@@ -55,7 +56,9 @@ class Scope:
     """
     def __init__(self, doc, parent=None, factory=None, node=None):
         if not factory:
-            factory = parce.util.file_cache(quickly.load).__getitem__
+            # included files are LilyPond files, whatever their name
+            load = functools.partial(quickly.load, lexicon="lilypond")
+            factory = parce.util.file_cache(load).__getitem__
         self._document = doc
         self.parent = parent    #: The parent Scope (None for the root Scope)
         self.factory = factory  #: A callable returning a :class:`parce.Document` for a filename.
-- 
2.43.0


From be6092e4552727696a1e4c4b2b4a5d8863af174f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 115/142] fix: Reference.get_value obeys the wait argument

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index ce5128a..8022c77 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -424,7 +424,7 @@ class Reference(element.Element):
         :meth:`get_value_with_scope`.
 
         """
-        result = self.get_value_with_scope(scope)
+        result = self.get_value_with_scope(scope, wait)
         if result:
             return result[0]
 
-- 
2.43.0


From 20e27f03ca741693e75ca80154c8c7618f39c8d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 116/142] fix: circular includes end, also if the document has
 a file: url

---
 quickly/dom/scope.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 936a953..c8145b9 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -122,8 +122,8 @@ class Scope:
 
         """
         # skip urls already in parent scopes, prevents circular include hangs
-        skip = {self.document().url}
-        skip.update(scope.document().url for scope in self.ancestors())
+        skip = {self.filename(scope.document().url)
+            for scope in (self, *self.ancestors()) if scope.document().url}
 
         urls = []
         def add(base_url):
@@ -133,7 +133,9 @@ class Scope:
                 else:
                     # a filename, where e.g. "#" has no special meaning
                     u = unquote(urljoin(quote(base_url), quote(url)))
-                if u not in skip and u not in urls:
+                filename = self.filename(u)
+                if filename not in skip:
+                    skip.add(filename)
                     urls.append(u)
         if self.relative_include:
             add(self.document().url)
@@ -144,6 +146,11 @@ class Scope:
             add(u)
         return urls
 
+    def filename(self, url):
+        """Return the filename on the local file system the url points to."""
+        u = urlparse(url)
+        return unquote(u.path) if u.scheme else url
+
     def get_document(self, url):
         """Return a parce Document at url.
 
@@ -152,10 +159,8 @@ class Scope:
         system. OSErrors raised by the factory are suppressed.
 
         """
-        u = urlparse(url)
-        filename = unquote(u.path) if u.scheme else url
         try:
-            return self.factory(filename)
+            return self.factory(self.filename(url))
         except OSError:
             pass
 
-- 
2.43.0


From a2661586953e333f32de8ec4aea56804073508f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 117/142] fix: spanners find the end that belongs to them

---
 quickly/dom/lily.py | 68 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 19 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 8022c77..1898fa6 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -25,7 +25,6 @@ Elements needed for LilyPond expressions.
 
 import collections
 import fractions
-import itertools
 import re
 
 from .. import duration, pitch
@@ -722,10 +721,12 @@ class Spanner(element.MappingElement):
     def find_parallel(self, limit=0):
         r"""Try to find the other end of this spanner. May return None.
 
-        Does not look outside of the current New or Assignment node. The
-        ``limit`` can be used to further restrict the number of nodes searched,
-        e.g. to prevent slowness in text editors that do not need to highlight
-        items far offscreen.
+        Does not look outside of the current New or Assignment node, nor in
+        nested contexts or other voices. Both ends of a spanner always find
+        each other; when there are multiple starts or ends in a row, they are
+        matched like parentheses. The ``limit`` can be used to further restrict
+        the number of nodes searched, e.g. to prevent slowness in text editors
+        that do not need to highlight items far offscreen.
 
         For example::
 
@@ -758,21 +759,50 @@ class Spanner(element.MappingElement):
             <lily.Slur 'stop' [24:25]>
 
         """
-        upto = next(self << (Assignment, New, Document, Score), None)
+        upto = next(filter(self._is_voice, self.ancestors()), None)
         nodes = self.forward(upto) if self.head == "start" else self.backward(upto)
-        if limit:
-            nodes = itertools.islice(nodes, limit)
-        cls, head = type(self), self.head
-        parallel = lambda n: type(n) is cls and n.head != head
-
-        spanner_id = self.left_sibling() if isinstance(self.parent, SpannerId) else None
-        if spanner_id:
-            spanner_ok = lambda n: isinstance(n.parent, SpannerId) and spanner_id.equals(n.left_sibling())
-        else:
-            spanner_ok = lambda n: not isinstance(n.parent, SpannerId)
-
-        for n in filter(lambda n: parallel(n) and spanner_ok(n), nodes):
-            return n
+        spanner_id = self.spanner_id()
+        depth = count = 0
+        descend = None
+        while not limit or count < limit:
+            try:
+                n = nodes.send(descend)
+            except StopIteration:
+                break
+            count += 1
+            descend = None
+            if isinstance(n, VoiceSeparator) and n.parent is upto:
+                break
+            elif self._is_voice(n):
+                descend = False # don't look in other contexts or voices
+            elif type(n) is type(self):
+                other_id = n.spanner_id()
+                if spanner_id.equals(other_id) if spanner_id and other_id else spanner_id is other_id:
+                    if n.head == self.head:
+                        depth += 1
+                    elif depth:
+                        depth -= 1
+                    else:
+                        return n
+
+    def spanner_id(self):
+        r"""Return the node that is the spanner id (after ``\=``) of this
+        spanner, or None.
+        """
+        n = next(self << (SpannerId, Articulations, Music), None)
+        if isinstance(n, SpannerId):
+            return next((c for c in n if not isinstance(c, base.Comment)), None)
+
+    @staticmethod
+    def _is_voice(node):
+        """Return True if spanners can't extend across the boundaries of this node."""
+        if isinstance(node, (Assignment, New, Document, Score)):
+            return True
+        elif isinstance(node, SimultaneousMusicList):
+            return any(isinstance(n, VoiceSeparator) for n in node)
+        # every music expression at toplevel is a separate score
+        return isinstance(node, Music) and not isinstance(node, Durable) \
+            and isinstance(node.parent, (Document, Book, BookPart, PartCombine))
 
 
 class Block(HandleAssignments, element.BlockElement):
-- 
2.43.0


From b6f93f7b7c5152eb3c9848e358cb2b83e33a8b81 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 118/142] fix: a number after \tweak and its property is not a
 duration

---
 quickly/lang/lilypond.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index a740fdd..52bed35 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -736,6 +736,7 @@ class MusicBuilder:
         self._music = None
         self._duration = None
         self._scaling = None
+        self._number = None
         self._modifier = None
         self._articulations = None
         self._events.clear()
@@ -945,6 +946,10 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
+        if token.text.isdigit() and self.add_tweak(self.factory(lily.Int, (token,))):
+            # it is not a duration but the value of the tweaked property
+            self._number = token
+            return
         if self._duration or self._articulations or self._events \
                 or isinstance(self._modifier, lily.RestModifier):
             # the duration does not belong to the preceding music
@@ -1207,7 +1212,18 @@ class MusicBuilder:
     @_context("duration")
     def duration(self, obj):
         """Called for ``duration`` context: dots, scaling."""
-        dots, self._scaling = obj
+        dots, scaling = obj
+        number, self._number = self._number, None
+        if number and len(dots) == 1 and not scaling:
+            # a number like ``2.``, as value of a tweaked property
+            self._events[-1][-1:] = [self.factory(lily.Float, (number,))]
+            return
+        elif number:
+            # it was a duration after all
+            del self._events[-1][-1:]
+            yield from self.pending_music()
+            self._duration = [number]
+        self._scaling = scaling
         self._duration.extend(dots)
 
     @_context("chord", "figure")
-- 
2.43.0


From 6dae3340e8ec85b32a1ced29529d5df84c3c3341 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 119/142] fix: a number with a dot after \tweak covers its text

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 52bed35..9e6e49f 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1216,7 +1216,7 @@ class MusicBuilder:
         number, self._number = self._number, None
         if number and len(dots) == 1 and not scaling:
             # a number like ``2.``, as value of a tweaked property
-            self._events[-1][-1:] = [self.factory(lily.Float, (number,))]
+            self._events[-1][-1:] = [self.factory(lily.Float, (number, *dots))]
             return
         elif number:
             # it was a duration after all
-- 
2.43.0


From 22019a5732813e8445d2462188c0e4d377ef8641 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 120/142] fix: a comment after an event before the first note
 keeps its place

---
 quickly/lang/lilypond.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 9e6e49f..1f234c1 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1290,6 +1290,7 @@ class MusicBuilder:
         Comments are preserved as good as possible.
 
         """
+        yield from self.unbound_events()
         if self._events:
             self._events[-1].append(obj)
         elif self._articulations:
-- 
2.43.0


From c2e5c2bb7c4cfd1ca525ac0228e9b86565c0048d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 121/142] fix: a live transform does not change cached nodes
 when it is updated after an edit

---
 quickly/lang/lilypond.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 1f234c1..c21a49a 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -415,7 +415,11 @@ class LilyPondTransform(base.Transform):
             elif isinstance(i.obj, element.Element):
                 yield i.obj
             elif i.name in ("list", "identifier_ref"):
-                yield from i.obj
+                for node in i.obj:
+                    if node.signatures():
+                        # an argument may be added, and the node is cached
+                        node = node.copy_with_origin()
+                    yield node
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -441,7 +445,8 @@ class LilyPondTransform(base.Transform):
                             # gotcha!!
                             first, *rest = variable
                             if isinstance(first, lily.List):
-                                identifier = lily.Identifier(*first)
+                                # do not take over children of a cached node
+                                identifier = lily.Identifier(*(n.copy_with_origin() for n in first))
                             else:
                                 identifier = lily.Identifier(first)
                             yield lily.Assignment(identifier, *rest)
@@ -552,7 +557,8 @@ class LilyPondTransform(base.Transform):
             elif isinstance(i.obj, element.Element):
                 if step:
                     yield step
-                step = i.obj
+                # an accidental or alteration may be added, and the object is cached
+                step = i.obj.copy_with_origin()
         if step:
             yield step
 
@@ -1197,7 +1203,9 @@ class MusicBuilder:
               "chordmode", "figuremode")
     def flatten_elements(self, obj):
         """Called for context that yield lists of Elements; flatten them."""
-        yield from obj
+        # arguments may be added to the nodes, and they are cached, so copy
+        for node in obj:
+            yield node.copy_with_origin()
 
     @_context("pitch")
     def pitch(self, obj):
@@ -1230,7 +1238,8 @@ class MusicBuilder:
     def music_element(self, obj):
         """An element node that is a music item (chord, figure)."""
         yield from self.pending_music()
-        self._music = obj
+        # duration and articulations will be added, and the object is cached
+        self._music = obj.copy_with_origin()
 
     @_context("script")
     def script(self, obj):
@@ -1241,6 +1250,9 @@ class MusicBuilder:
     def list(self, obj):
         """Called for ``list`` context: an element and possibly comments."""
         node, *comments = obj
+        if node.signatures():
+            # an argument may be added, and the node is cached
+            node = node.copy_with_origin()
         yield from self.string_scheme(node)
         for comment in comments:
             yield from self.comment(comment)
-- 
2.43.0


From c312af86dd0cef68698ae7c033fe39c733f79f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 122/142] fix: edits with a range delete nothing outside the
 range

---
 quickly/dom/element.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 9eb079c..609e10b 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -654,7 +654,8 @@ class Element(Node, metaclass=ElementType):
         text outside the specified range will be deleted.
 
         """
-        pos = context.pos if start is None else start
+        pos = context.pos
+        start = pos if start is None else start
         end = context.end if end is None else end
         tokens = context.tokens()
 
@@ -687,14 +688,24 @@ class Element(Node, metaclass=ElementType):
                 if point.pos > pos:
                     # see if old content needs to be deleted between pos and point.pos
                     ins_pos = del_pos = del_end = pos
+                    kept = None     # where old content remains, after the range
                     for t in tokens:
                         if t.pos >= point.pos:
                             pos = t.pos
                             break
-                        if del_end == ins_pos:
-                            del_pos = t.pos
-                        del_end = t.end
+                        elif t.pos < start:
+                            # remains, as it is before the range
+                            ins_pos = del_pos = del_end = max(ins_pos, t.end)
+                        elif t.end > end:
+                            if kept is None:
+                                kept = t.pos
+                        else:
+                            if del_end <= ins_pos:
+                                del_pos = t.pos
+                            del_end = t.end
                     if del_end > ins_pos:
+                        if kept is not None:
+                            pos = kept
                         if del_pos > ins_pos and (new_space if new_text else line_comment):
                             new_space = ''  # the whitespace before the old content remains
                             if not new_text:
@@ -724,12 +735,13 @@ class Element(Node, metaclass=ElementType):
                 line_comment = is_line_comment(point)
                 pos = point.end
                 insert_after = point.space_after
+        pos = max(pos, start)
         if pos < end:
             if new_space:
                 # the whitespace before the old content remains
                 for t in tokens:
                     if t.pos >= pos:
-                        if t.pos > pos:
+                        if pos < t.pos < end:
                             pos = t.pos
                             new_space = ''
                         break
-- 
2.43.0


From 9573a20bcd8122b7387a32c2d0e71e083060dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 123/142] fix: a rhythm edit leaves a duration outside the
 range alone

---
 quickly/rhythm.py | 48 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 33c74da..88b3c24 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -41,9 +41,7 @@ class EditRhythm(edit.Edit):
     @staticmethod
     def durables(r):
         """Yield all Durable instances in range."""
-        # collect the nodes first, adding or removing a Duration could shift
-        # the boundaries of the range
-        for n in list(r.nodes()):
+        for n in EditRhythm.handles_duration(r):
             if isinstance(n, lily.Durable):
                 # skip \skip with music instead of duration (which is legal
                 # as of LilyPond 2.23.6)
@@ -54,6 +52,33 @@ class EditRhythm(edit.Edit):
                     continue
                 yield n
 
+    @staticmethod
+    def handles_duration(r):
+        """Return a list of all nodes in range that can have a Duration child.
+
+        A node is not included when the range ends inside the node before its
+        duration, e.g. in the pitches of a chord. The end node itself is always
+        included.
+
+        (A list, because adding or removing a Duration could shift the
+        boundaries of the range.)
+
+        """
+        end = r.end_node()
+        ancestors = list(end.ancestors()) if end else ()
+        def duration_in_range(node):
+            if any(node is n for n in ancestors):
+                for n in node:
+                    if isinstance(n, lily.Articulations):
+                        break
+                    elif n not in r:
+                        return False
+                    elif isinstance(n, lily.Duration):
+                        break
+            return True
+        return [n for n in r.nodes()
+            if isinstance(n, lily.HandleDuration) and duration_in_range(n)]
+
     @staticmethod
     def may_remove(node):
         """Return True if the duration of this node may be removed.
@@ -232,15 +257,14 @@ class RhythmTransform(EditRhythm):
 
     def edit_range(self, r):
         """Transform all durations."""
-        for n in list(r.nodes()):   # removing a scaling could shift the boundary of the range
-            if isinstance(n, lily.HandleDuration):
-                dur = n.duration_scaling
-                if dur:
-                    dur = self._transform(*dur)
-                    if isinstance(n, lily.Tempo):
-                        n.duration = dur[0] # \tempo does not support scaling
-                    else:
-                        n.duration_scaling = dur
+        for n in self.handles_duration(r):
+            dur = n.duration_scaling
+            if dur:
+                dur = self._transform(*dur)
+                if isinstance(n, lily.Tempo):
+                    n.duration = dur[0] # \tempo does not support scaling
+                else:
+                    n.duration_scaling = dur
 
 
 class CopyRhythm(EditRhythm):
-- 
2.43.0


From 16194c0bd9bbf50cdf7e6e22c8fbc278735acad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 124/142] fix: converting to or from relative only touches
 music completely in the range, transposing a selected duration does not
 change its note

---
 quickly/relative.py  | 4 ++--
 quickly/transpose.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index ef960f6..48feebd 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -158,7 +158,7 @@ class Rel2abs(edit.Edit):
         nodes = []
         for n in r.instances_of((lily.Language, lily.Include, lily.Relative)):
             # look now if we want the node, because the range may become invalid
-            nodes.append((n, isinstance(n, lily.Relative) and r.in_range() and not in_relative(n)))
+            nodes.append((n, isinstance(n, lily.Relative) and n in r and not in_relative(n)))
         for n, wanted in nodes:
             if wanted:
                 make_absolute(n)
@@ -238,7 +238,7 @@ class Abs2rel(edit.Edit):
                     # these commands need a music list, don't put \relative in between
                     need_list = (lily.Sequential, lily.Simultaneous, lily.Alternative)
                     music = n if isinstance(n, lily.MusicList) else next(n / lily.MusicList, ())
-                    if any(isinstance(m, lily.Pitchable) for m in music) and r.in_range() \
+                    if any(isinstance(m, lily.Pitchable) for m in music) and n in r \
                             and not isinstance(n.parent, need_list):
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                     else:
diff --git a/quickly/transpose.py b/quickly/transpose.py
index 4bb8ae1..ac00dfd 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -149,7 +149,7 @@ class Transpose(edit.Edit):
         else:
             # look now, the boundaries may shift when pitches get an octave
             nodes = set(id(n) for n in node // lily.Pitchable if n in r)
-            if isinstance(node, lily.Pitchable) and node in r:
+            if isinstance(node, lily.Pitchable) and not r.start_trail and node in r:
                 nodes.add(id(node))
             writable = lambda n: id(n) in nodes
 
-- 
2.43.0


From 88653486fa76955edefc2e88a731deb1d5e10ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 125/142] fix: edits via a cursor that selects all, a part of
 one note, or an empty document work

---
 quickly/dom/edit.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 6d40a1a..e70d407 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -26,6 +26,7 @@ parce Document in different ways.
 import parce.document
 
 from ..node import Range
+from .base import Document
 from .element import Element
 
 
@@ -106,17 +107,20 @@ class Edit:
 
         """
         d = cursor.document().get_transform(True)
+        if d is None:
+            d = Document()  # the parce document is still empty
         r = start = end = None
         if cursor.has_selection():
-            start_node = d.find_descendant_right(cursor.pos)
-            end_node = d.find_descendant_left(cursor.end)
+            start_pos, end_pos = cursor.selection()
+            start_node = d.find_descendant_right(start_pos)
+            end_node = d.find_descendant_left(end_pos)
             if start_node and end_node:
                 start = start_node.pos
                 end = end_node.end
-                # a single selected node is in the range itself
-                ancestor = d if self.range_from_root \
-                    else start_node.parent if start_node is end_node \
-                    else start_node.common_ancestor(end_node)
+                ancestor = d if self.range_from_root else start_node.common_ancestor(end_node)
+                if ancestor is start_node:
+                    # a single (partially) selected node is in the range itself
+                    ancestor = start_node.parent
                 # all children of the end node are also selected
                 while len(end_node):
                     end_node = end_node[-1]
-- 
2.43.0


From 440cb34d9cbcdf1b9e2ee650e4ee42f0e32b77b2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 126/142] fix: abs2rel leaves a partially selected \chordmode
 alone

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 48feebd..7f8866a 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -243,7 +243,7 @@ class Abs2rel(edit.Edit):
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                     else:
                         abs2rel()
-                elif isinstance(n, lily.ChordMode):
+                elif isinstance(n, lily.ChordMode) and n in r:
                     r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                 else:
                     follow_language(processor, n)
-- 
2.43.0


From 45d1e003c660f364769dfe7463441a431307d9ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 127/142] fix: markup.fret_diagram*(), with_link() and
 woodwind_diagram() work

---
 quickly/dom/markup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 656fcda..f7d5146 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -111,15 +111,15 @@ def tied_lyric(text):
 
 
 def fret_diagram(s):
-    return c_('fret-diagram', _s(scm.String(s)))
+    return _c('fret-diagram', _s(scm.String(s)))
 
 
 def fret_diagram_terse(s):
-    return c_('fret-diagram-terse', _s(scm.String(s)))
+    return _c('fret-diagram-terse', _s(scm.String(s)))
 
 
 def fret_diagram_verbose(element):
-    return c_('fret-diagram-verbose', element)
+    return _c('fret-diagram-verbose', element)
 
 
 def fromproperty(name):
@@ -242,7 +242,7 @@ def translate_scaled(x, y, *args):
 
 
 def with_link(label, *args):
-    return _c('with-color', _sym(label), _create_list(args))
+    return _c('with-link', _sym(label), _create_list(args))
 
 
 def with_url(url, *args):
@@ -250,7 +250,7 @@ def with_url(url, *args):
 
 
 def woodwind_diagram(instrument, scheme_commands):
-    return _c('woodwind-diagram', _sym(label), scheme_commands)
+    return _c('woodwind-diagram', _sym(instrument), scheme_commands)
 
 
 def draw_squiggle_line(sqlength, x, y, eqend):
-- 
2.43.0


From 0660f1c9b98b6663b998bb93be278902db7eddde Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 128/142] fix: read \applyMusic, \applyContext and \applyOutput
 as their elements

---
 quickly/dom/lily.py      | 4 ++--
 quickly/lang/lilypond.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 1898fa6..3b8aee4 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1270,7 +1270,7 @@ class ApplyContext(element.HeadElement):
         yield Scheme,
 
 
-class ApplyMusic(element.HeadElement):
+class ApplyMusic(element.HeadElement, Music):
     r"""The ``\applyMusic`` function."""
     space_between = space_after_head = " "
     head = r'\applyMusic'
@@ -1285,7 +1285,7 @@ class ApplyOutput(element.HeadElement):
     head = r'\applyOutput'
 
     def signatures(self):
-        yield SYMBOL, Scheme
+        yield (*SYMBOL, Scheme), Scheme
 
 
 class Relative(element.HeadElement, Music):
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index c21a49a..6bc076a 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1124,8 +1124,9 @@ class MusicBuilder:
 
     _builtin_mapping = element.head_mapping(
         lily.Absolute, lily.Acciaccatura, lily.AddQuote, lily.AfterGrace,
-        lily.Alternative, lily.AppendToTag, lily.Appoggiatura, lily.Bar,
-        lily.Break, lily.Breathe, lily.Clef, lily.Default, lily.Fixed,
+        lily.Alternative, lily.AppendToTag, lily.ApplyContext, lily.ApplyMusic,
+        lily.ApplyOutput, lily.Appoggiatura, lily.Bar, lily.Break,
+        lily.Breathe, lily.Clef, lily.Default, lily.Fixed,
         lily.Grace, lily.GrobDashPattern, lily.GrobDirection, lily.GrobStyle,
         lily.InStaffSegno, lily.KeepWithTag, lily.Key, lily.Label, lily.Mark,
         lily.OctaveCheck, lily.Ottava, lily.PageBreak, lily.PageTurn,
-- 
2.43.0


From 12381319441e57e19446d2485d0ce4ea5d282e27 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 129/142] fix: \shape with a grob name is complete, does not
 take the next item as argument

---
 quickly/lang/lilypond.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 6bc076a..501477c 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -869,6 +869,12 @@ class MusicBuilder:
         r"""Return True if the node could be added to a ``\shape`` command that's being built."""
         return self._add_argument(node, lily.Shape, 2)
 
+    def shape_is_complete(self):
+        r"""Return True if the only pending event is a ``\shape`` command with all its arguments."""
+        e = self._events
+        return len(e) == 1 and isinstance(e[0], lily.Shape) and \
+            sum(not isinstance(n, base.Comment) for n in e[0]) == 2
+
     def add_event_argument(self, node):
         r"""Try to add the node as argument to a spanner_id, tweak, tag, or shape."""
         return self.add_spanner_id(node) or \
@@ -1265,6 +1271,9 @@ class MusicBuilder:
             # after a direction: an articulation
             if not self.add_event_argument(obj):
                 self.add_articulation(obj)
+            elif self.shape_is_complete():
+                # a \shape with a grob name is a command, not an articulation
+                yield from self.pending_music()
         else:
             # toplevel expression
             yield from self.pending_music()
-- 
2.43.0


From a9861681d30717b6f972f517d2e2656e952645eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 130/142] fix: a named mode in a KeySignature uses the custom
 scale

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index ea44cd8..3aca825 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -217,7 +217,7 @@ class KeySignature:
         self.mode = mode        #: The mode (a standard LilyPond mode name like "major" or a custom alterations list).
         self.scale = scale      #: The default scale.
         if isinstance(mode, str):
-            mode = alterations(mode_offset[mode])
+            mode = alterations(mode_offset[mode], scale)
         self.accidentals = accidentals(note, alter, mode, scale)    #: The accidentals for this key signature.
         #: The tuple of pitch values in the default scale to give a flat instead
         #: of a sharp when converting a MIDI key number to a pitch. The default
-- 
2.43.0


From 8aa78f7f57929fad31a60322ba532e151ae7cfc3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 131/142] fix: transposing a selection that starts inside the
 very first note does not change that note

---
 quickly/transpose.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index ac00dfd..a59d70a 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -144,11 +144,14 @@ class Transpose(edit.Edit):
         # always start at the root, because the meaning of pitches depends on
         # language, and on a surrounding \relative or \fixed
         root = node.root()
-        if r.is_full() and node is root:
+        if r.is_full() and node is root and not r.start_trail:
             writable = lambda n: True
         else:
             # look now, the boundaries may shift when pitches get an octave
             nodes = set(id(n) for n in node // lily.Pitchable if n in r)
+            if r.start_trail:
+                # a note is not selected if only its octave or duration is
+                nodes.difference_update(id(n) for n in r.start_node().ancestors())
             if isinstance(node, lily.Pitchable) and not r.start_trail and node in r:
                 nodes.add(id(node))
             writable = lambda n: id(n) in nodes
-- 
2.43.0


From e090a1fbd8470a5c81e2c3dadf13f0c41cfd3829 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 132/142] fix: range_from_cursor: edit nothing if there are no
 nodes after the cursor

---
 quickly/dom/edit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index e70d407..0aa038d 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -130,8 +130,8 @@ class Edit:
                 r = Range(d, None, [])  # empty, there is no node in the selection
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
-            if start_node:
-                r = Range.from_nodes(start_node)
+            # empty if there is no node after the cursor
+            r = Range.from_nodes(start_node) if start_node else Range(d, None, [])
         if r is None:
             r = Range(d)
         self._document = cursor.document()
-- 
2.43.0


From a0978af156f3cc6592c1d78d62cbf396cf9f0159 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 133/142] fix: write the whitespace wanted by elements without
 text

---
 quickly/dom/element.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 609e10b..1618729 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -599,6 +599,12 @@ class Element(Node, metaclass=ElementType):
         head_point = self.head_point()
         tail_point = self.tail_point()
 
+        if not head_point:
+            # no text, but there can be spacing wishes
+            space_after = "" if len(self) or tail_point else self.space_after
+            if self.space_before or space_after:
+                head_point = Point(None, None, self.write_head, False, self.space_before, space_after)
+
         def collapse_last(points, last):
             """Yield all points, but with the last one, add last spacing wish"""
             for p in points:
@@ -683,6 +689,8 @@ class Element(Node, metaclass=ElementType):
                     insert_after = point.space_after
                     changed = True
                     line_comment = is_line_comment(point)
+                else:
+                    insert_after = collapse_whitespace((space, point.space_after))
             else:
                 # existing element
                 if point.pos > pos:
-- 
2.43.0


From d4f92c32382d4a9f5ba3b168be897dd5e4aab69c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 134/142] fix: don't use the opening quote of an unfinished
 HTML string also as its end

---
 quickly/lang/html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index 51dcc8b..c526afa 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -138,14 +138,14 @@ class HtmlTransform(base.Transform):
     def dqstring(self, items):
         """Process the ``dqstring`` context."""
         head_origin = items[0],
-        tail_origin = (items.pop(),) if items[-1] == '"' else ()
+        tail_origin = (items.pop(),) if len(items) > 1 and items[-1] == '"' else ()
         children = (self._action(t.action, t) for t in items[1:])
         return self.factory(htm.DqString, head_origin, tail_origin, *children)
 
     def sqstring(self, items):
         """Process the ``sqstring`` context."""
         head_origin = items[0],
-        tail_origin = (items.pop(),) if items[-1] == "'" else ()
+        tail_origin = (items.pop(),) if len(items) > 1 and items[-1] == "'" else ()
         children = (self._action(t.action, t) for t in items[1:])
         return self.factory(htm.SqString, head_origin, tail_origin, *children)
 
-- 
2.43.0


From b0408d50f2845e0e3cb488e0784e69f69dc5c123 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:27:19 +0000
Subject: [PATCH 135/142] fix: read a number after \mark and \volta as a
 number, not as a duration

---
 quickly/dom/lily.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3b8aee4..da455dc 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1409,13 +1409,13 @@ class Unfolded(element.HeadElement, Music):
         yield MUSIC,
 
 
-class Volta(element.HeadElement, Music):
+class Volta(_ConvertUnpitchedToInt, element.HeadElement, Music):
     r"""The ``\volta`` command."""
     head = r'\volta'
     space_between = space_after_head = " "
 
     def signatures(self):
-        yield (List, Scheme), MUSIC
+        yield (List, Int, Unpitched, Scheme), MUSIC
 
 
 class Transposition(element.HeadElement, Music):
@@ -2150,7 +2150,7 @@ class Label(element.HeadElement, Music):
         yield Scheme,
 
 
-class Mark(element.HeadElement, Music):
+class Mark(_ConvertUnpitchedToInt, element.HeadElement, Music):
     r"""A ``\mark`` command. Has one child."""
     head = r'\mark'
 
-- 
2.43.0


From 7dcdc069ea457d7e2cea1213d07c7103cfc93570 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:27:21 +0000
Subject: [PATCH 136/142] fix: \pushToTag and \appendToTag have two music
 arguments

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index da455dc..4d8eeac 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2662,7 +2662,7 @@ class PushToTag(element.HeadElement):
     head = r'\pushToTag'
 
     def signatures(self):
-        yield (Symbol, String, Scheme), MUSIC
+        yield (Symbol, String, Scheme), MUSIC, MUSIC
 
 
 class AppendToTag(element.HeadElement):
@@ -2671,7 +2671,7 @@ class AppendToTag(element.HeadElement):
     head = r'\appendToTag'
 
     def signatures(self):
-        yield (Symbol, String, Scheme), MUSIC
+        yield (Symbol, String, Scheme), MUSIC, MUSIC
 
 
 class Etc(element.HeadElement):
-- 
2.43.0


From b870f21180d3be681a4a9082259240811d36772d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 137/142] fix: accept a Scheme list in \time

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 4d8eeac..750a031 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2284,14 +2284,14 @@ class Clef(element.HeadElement, Music):
 class Time(element.HeadElement, Music):
     r"""A ``\time`` statement.
 
-    Has an optional List child and a Fraction child.
+    Has an optional List or Scheme child and a Fraction child.
 
     """
     space_after_head = " "
     head = r"\time"
 
     def signatures(self):
-        yield List, Fraction
+        yield (List, Scheme), Fraction
         yield Fraction,
 
 
-- 
2.43.0


From b2f46eff02f087178221e1acdf052d4840363456 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:30:35 +0000
Subject: [PATCH 138/142] fix: write a space between the arguments of \time

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 750a031..8c72bdf 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2287,7 +2287,7 @@ class Time(element.HeadElement, Music):
     Has an optional List or Scheme child and a Fraction child.
 
     """
-    space_after_head = " "
+    space_after_head = space_between = " "
     head = r"\time"
 
     def signatures(self):
-- 
2.43.0


From 511be870ed2dc0cbc6efbf4a447f61c40319e4ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:52:31 +0000
Subject: [PATCH 139/142] fix: MIDI keys in key signatures with quarter tones
 get the right octave and step

---
 quickly/key.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quickly/key.py b/quickly/key.py
index 3aca825..f59b664 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -23,6 +23,7 @@ Classes and functions to deal with key signatures.
 """
 
 import collections
+import math
 
 from parce.util import cached_method
 
@@ -166,7 +167,7 @@ def chromatic_scale(note=0, alter=0, scale=None, flats=None):
 
     alter += scale[note] - scale[0]
     notes = list(transpose(chrom_scale()))
-    semitones = int(alter * 2) % 12
+    semitones = math.floor(alter * 2) % 12
     return notes[-semitones:] + notes[:-semitones]  # rotate so C-based pitch is at start
 
 
@@ -333,11 +334,11 @@ class KeySignature:
         steps = list(chromatic_scale(self.note, self.alter, self.scale, flats))
         # fill in the base tones from the scale (note, alter)
         for note, (base, alter) in enumerate(zip(self.scale, self.accidentals)):
-            step = int((base + alter) * 2) % 12
+            step = math.floor((base + alter) * 2) % 12
             steps[step] = (note, alter)
         # add octave
-        octave = lambda p: -1 if p > 6 else 1 if p < 0 else 0
-        steps = [(octave(note + alter) - 5, note, alter) for note, alter in steps]
+        octave = lambda note, alter: -math.floor((self.scale[note] + alter) / 6)
+        steps = [(octave(note, alter) - 5, note, alter) for note, alter in steps]
 
         def from_midi(key):
             """Return a Pitch from the MIDI key number."""
-- 
2.43.0


From 9088d4d1b964d294ff1d6e13015dcaee39bc7ad0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:00:59 +0000
Subject: [PATCH 140/142] fix: an unknown language name in \language is ignored

---
 quickly/pitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 837ac13..b0988a0 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -465,7 +465,7 @@ class PitchProcessor:
         from .dom import lily
         for n in node < (lily.Language, lily.Include):
             lang = n.language
-            if lang:
+            if lang in pitch_names:
                 self.language = lang
                 break
 
@@ -483,7 +483,7 @@ class PitchProcessor:
         for n in nodes:
             if isinstance(n, (lily.Language, lily.Include)):
                 lang = n.language
-                if lang:
+                if lang in pitch_names:
                     self.language = lang
                     continue
             yield n
-- 
2.43.0


From fa3d46f1e73c04c50b58911ed5d08cb780ac24a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 141/142] fix: node.ls[start:end] with negative indices

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 4a35e9d..8503ec1 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1408,7 +1408,7 @@ class _NodeLister:
     def __getitem__(self, key):
         """Print specified items."""
         if isinstance(key, slice):
-            indices = itertools.islice(range(len(self.node)), key.start, key.stop, key.step)
+            indices = range(len(self.node))[key]
         else:
             indices = [key]
         for n in indices:
-- 
2.43.0


From eafa47685950d7f73be605a7573620dd8e9b823f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:01:44 +0000
Subject: [PATCH 142/142] fix: Range.pwd does not show nodes outside the range

---
 quickly/node.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 8503ec1..a1a97f2 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1316,10 +1316,8 @@ class Range(Common):
 
         """
         nodes = [self.node]
-        for n in self.node.ancestors():
-            nodes.append(n)
-            if n is self.ancestor():
-                break
+        while nodes[-1] is not self.ancestor():
+            nodes.append(nodes[-1].parent)
         nodes.reverse()
         _pwd(nodes)
 
-- 
2.43.0

