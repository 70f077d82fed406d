From b25b990d22bfee4fcaea028f3110561f0b901ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 01/80] fix: OUTCAR symmetry reports the number of primitive
 cells, not the split line

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index eca8c87..c4a2cc5 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -161,7 +161,7 @@ class Outcar(BaseParser):
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
-                    text = f'{line.strip().split()} primitive cells'
+                    text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
                 if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
-- 
2.43.0


From 87434d7d2524d4db1fbd4cc23c45ae408cd0fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 02/80] fix: OUTCAR elastic moduli use one name for the
 non-symmetrized tensor, present or absent

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index c4a2cc5..cac1a7c 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -44,7 +44,7 @@ class Outcar(BaseParser):
 
         self._data = {
             'elastic_moduli': {
-                'non-symmetrized': None,
+                'non_symmetrized': None,
                 'symmetrized': None,
                 'total': None
             },
-- 
2.43.0


From 09ec4ffa24e3c42050a4be4db77bbe44b9f81664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 03/80] fix: an OUTCAR that ends inside a printed block is
 unfinished, not an IndexError

---
 parsevasp/outcar.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index cac1a7c..de61531 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -156,30 +156,31 @@ class Outcar(BaseParser):
             if line.strip().startswith('Analysis of symmetry for dynamics'):
                 config = 'dynamic'
             if config:
-                if line.strip().startswith('Subroutine PRICEL returns'):
+                if line.strip().startswith('Subroutine PRICEL returns') and index + 1 < len(outcar):
                     text = outcar[index + 1].strip().lower()
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
                     text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
-                if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
+                if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a') and \
+                   index + 1 < len(outcar):
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
                 if line.strip().startswith('Subroutine GETGRP returns'):
                     self._data['symmetry']['num_space_group_operations'][config].append(int(line.strip().split()[4]))
 
             # then the elastic tensors etc. in kBar
-            if line.strip().startswith('ELASTIC MODULI  (kBar)'):
+            if line.strip().startswith('ELASTIC MODULI  (kBar)') and index + 8 < len(outcar):
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['non_symmetrized'] = np.asarray(tensor)
-            if line.strip().startswith('SYMMETRIZED ELASTIC MODULI'):
+            if line.strip().startswith('SYMMETRIZED ELASTIC MODULI') and index + 8 < len(outcar):
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['symmetrized'] = np.asarray(tensor)
-            if line.strip().startswith('TOTAL ELASTIC MODULI'):
+            if line.strip().startswith('TOTAL ELASTIC MODULI') and index + 8 < len(outcar):
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
@@ -188,7 +189,7 @@ class Outcar(BaseParser):
                 if line.strip().startswith(f'magnetization ({_proj})'):
                     _counter = 0
                     mag_found = False
-                    while not mag_found:
+                    while not mag_found and index + 4 + _counter < len(outcar):
                         if outcar[index + 4 + _counter].strip().split():
                             if not outcar[index + 4 + _counter].strip().startswith('-') and not outcar[
                                 index + 4 + _counter].strip().startswith('tot'):
-- 
2.43.0


From 72fbed8e235b0b0c294e6ce61a1a1a717f9132b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 04/80] fix: a trailing ; in an INCAR line is accepted whatever
 follows it and from every source

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 4b64ffc..fd20961 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -162,7 +162,7 @@ class Incar(BaseParser):
                 # Now split on ; as we could have combined entries
                 splitted = splitted[0].split(';')
                 for ntry in splitted:
-                    if ntry == '\n':
+                    if not ntry.strip():
                         # Skip if the user used ; at the end of a line
                         continue
                     # Then split on = and analyze each entry
-- 
2.43.0


From ef09c356ff2c2e49032de011a4962b645cee3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 05/80] fix: Incar.get returns the comment when asked for it

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index fd20961..2a0e001 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -365,7 +365,7 @@ class Incar(BaseParser):
         try:
             value = self.entries[tag].get_value()
             if comment:
-                com = self.entries[tag].get_value()
+                com = self.entries[tag].get_comment()
         except KeyError:
             pass
 
-- 
2.43.0


From b9cb0100aa7986a7565cb0567d6821ecac60b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 06/80] fix: lists of booleans are written to INCAR as Fortran
 logicals

---
 parsevasp/incar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 2a0e001..032e2a6 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -266,8 +266,8 @@ class Incar(BaseParser):
         # [1.0, 2.0, 3.0] - list of floats
 
         if isinstance(value, list):
-            # List of values (we know all are either string, int or float)
-            string = ' '.join(map(str, value))
+            # List of values (we know all are either string, int, float or bool)
+            string = ' '.join(map(self._convert_value_to_string, value))
         else:
             if isinstance(value, bool):
                 if value:
-- 
2.43.0


From 258a533383d85cdef96807257f578109c3d705a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 07/80] fix: comments of SYSTEM, MAGMOM and M_CONSTR are kept
 like those of other tags

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 032e2a6..f55f0eb 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -543,7 +543,7 @@ class IncarItem:
                 # If value is SYSTEM or MAGMOM (can contain asterix), treat it a bit special and
                 # leave its string intact but remove grub
                 clean_value = value.strip()
-                return clean_tag, clean_value, None
+                return clean_tag, clean_value, None if comment is None else comment.strip()
 
             # Values is a string, so we have read an INCAR or the user
             # tries to assign an entry with just a string
-- 
2.43.0


From cdf74123fa3823311665c8949587eb5e06fe43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 08/80] fix: shifts of an automatic KPOINTS mesh are read
 whether or not lines follow

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 26552a6..e1d3a24 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -235,7 +235,7 @@ class Kpoints(BaseParser):
                 else:
                     centering = 'Monkhorst-Pack'
                 divisions = [int(element) for element in kpoints[3].split()]
-                if len(kpoints) == 5:
+                if len(kpoints) > 4 and kpoints[4].split():
                     shifts = [float(element) for element in kpoints[4].split()]
             elif third_line_char == 'r':
                 centering = 'Reciprocal'
-- 
2.43.0


From 239daba429f4946bf563ea26b3b4b729d2c71785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 09/80] fix: blank lines in explicit and line-mode KPOINTS are
 skipped

---
 parsevasp/kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index e1d3a24..a3e7fc2 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -209,7 +209,7 @@ class Kpoints(BaseParser):
                 points.append(Kpoint(point, weight, direct=direct))
             loopmax = num_kpoints + loopmax
             if len(kpoints) > loopmax:
-                if kpoints[loopmax].strip()[0].lower() == 't':
+                if kpoints[loopmax].strip()[:1].lower() == 't':
                     # Tetrahedron info present
                     tetra = []
                     loopmax = loopmax + 1
@@ -257,7 +257,7 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_KPOINTS_NOT_DIRECT)
             for index in range((len(kpoints) - 4)):
                 true_index = index + 4
-                if kpoints[true_index] != '\n':
+                if kpoints[true_index].strip():
                     entry = kpoints[true_index].split()[0:3]
                     coordinate = np.asarray([float(element) for element in entry])
                     point = Kpoint(coordinate, 1.0)
-- 
2.43.0


From 3e55764df96e6e043090655f9e56934fb7032c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 10/80] fix: Kpoints.get returns the entry instead of raising
 AttributeError

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index a3e7fc2..3bb1c98 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -799,7 +799,7 @@ class Kpoints(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From 14a2e9f57cfd6df8a75d487bce28fbccb25b9399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 11/80] fix: the number of k-points follows deleted and
 replaced explicit points

---
 parsevasp/kpoints.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 3bb1c98..faba6d7 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -346,6 +346,8 @@ class Kpoints(BaseParser):
                 self._check_num_kpoints(num_kpoints=value)
 
             self.entries[entry] = value
+            if entry == 'points':
+                self._update_num_kpoints()
 
     def delete_point(self, point_number):
         """
@@ -362,6 +364,13 @@ class Kpoints(BaseParser):
         self._check_points()
         self._check_point_number(point_number)
         del self.entries['points'][point_number]
+        self._update_num_kpoints()
+
+    def _update_num_kpoints(self):
+        """Keep the number of k-points in step with the explicit points."""
+
+        if self.entries['mode'] == 'explicit' and self.entries['points'] is not None:
+            self.entries['num_kpoints'] = len(self.entries['points'])
 
     def add_point(self, point_number):
         """
-- 
2.43.0


From b1da2dadf6a486550c2747b94cc5f1a5ad2e3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 12/80] fix: Kpoints.modify accepts every KPOINTS entry and
 nothing else

---
 parsevasp/kpoints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index faba6d7..4d413d2 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -416,9 +416,10 @@ class Kpoints(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
-                ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering') in entry):
+        if entry not in (
+            'comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'generating_vectors', 'mode', 'num_kpoints',
+            'shifts', 'centering'
+        ):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
-- 
2.43.0


From a9208bfe50a4914e0ed15f0be6b77edfab6133b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 13/80] fix: Kpoints checks the type of the comment it is given

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 4d413d2..2a99358 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -441,7 +441,7 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
-- 
2.43.0


From c99bea431f212a81a33f434e86094178af3a9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 14/80] fix: Kpoints.modify refuses a single Cartesian point
 like a list of them

---
 parsevasp/kpoints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 2a99358..c23b911 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -315,6 +315,9 @@ class Kpoints(BaseParser):
             if not isinstance(point_number, int):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NOT_A_NUMBER])
                 sys.exit(self.ERROR_NOT_A_NUMBER)
+            if not value.get_direct():
+                self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
+                sys.exit(self.ERROR_CONVERSION)
             self.entries['points'][point_number] = value
         else:
             if entry == 'points':
-- 
2.43.0


From f8db399997708f3f8b0037cb582c6d4bbd302b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 15/80] fix: blanks before a coordinate mode line of a POSCAR
 do not change its meaning

---
 parsevasp/poscar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7e2fec3..e6090ce 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -225,13 +225,13 @@ class Poscar(BaseParser):
             atoms = [int(x) for x in poscar[6].split()]
             for num_ions in atoms:
                 nions = nions + num_ions
-            if poscar[7][0].lower() == 's':
+            if poscar[7].lstrip()[:1].lower() == 's':
                 selective = True
                 loopmax = 9
-                if not poscar[8][0].lower() == 'd':
+                if not poscar[8].lstrip()[:1].lower() == 'd':
                     direct = False
             if not selective:
-                if not poscar[7][0].lower() == 'd':
+                if not poscar[7].lstrip()[:1].lower() == 'd':
                     direct = False
         else:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_VASPFOUR])
@@ -281,7 +281,7 @@ class Poscar(BaseParser):
         # Now check if there is more in the POSCAR
         loopmax_pos = nions + loopmax
         if len(poscar) > loopmax_pos:
-            first_char = poscar[loopmax_pos][0].lower()
+            first_char = poscar[loopmax_pos].strip()[:1].lower()
             if first_char in ('d', 'c'):
                 velocities = True
                 if first_char == 'c':
-- 
2.43.0


From 127d104d9f32c0f0670f7b5fb10b616f6bd076f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 16/80] fix: a species with zero ions in a POSCAR does not
 shift the species behind it

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index e6090ce..469ef21 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -246,7 +246,7 @@ class Poscar(BaseParser):
         # Loop positions
         for i in range(nions):
             # Fetch specie
-            if index > atoms[specie_slot]:
+            while index > atoms[specie_slot]:
                 specie_slot = specie_slot + 1
                 index = 1
             specie = spec[specie_slot]
-- 
2.43.0


From ce57f00d21997f893785020e7a2e3e7730ae76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 17/80] fix: direct velocities of a POSCAR with cartesian
 positions are left as they are

---
 parsevasp/poscar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 469ef21..9375a9c 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -284,9 +284,8 @@ class Poscar(BaseParser):
             first_char = poscar[loopmax_pos].strip()[:1].lower()
             if first_char in ('d', 'c'):
                 velocities = True
-                if first_char == 'c':
-                    # Make sure we convert velocities to direct
-                    direct = False
+                # Only velocities in cartesian coordinates need to be converted to direct
+                direct = first_char == 'd'
             elif poscar[loopmax_pos].replace(' ', '') == '\n':
                 predictor = True
         # Now check that the next line is in fact a coordinate
-- 
2.43.0


From 1470d2202ba83d28162373518ea6f1ac3c2f09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 18/80] fix: blank lines at the end of a POSCAR are not taken
 for velocities or predictors

---
 parsevasp/poscar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 9375a9c..e07dd48 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -286,18 +286,18 @@ class Poscar(BaseParser):
                 velocities = True
                 # Only velocities in cartesian coordinates need to be converted to direct
                 direct = first_char == 'd'
-            elif poscar[loopmax_pos].replace(' ', '') == '\n':
+            elif not first_char:
                 predictor = True
         # Now check that the next line is in fact a coordinate
         loopmax_pos = loopmax_pos + 1
         # Allow for blank lines at the end of the positions
-        if len(poscar) > loopmax_pos:
+        if any(line.strip() for line in poscar[loopmax_pos:]):
             if not utils.is_number(poscar[loopmax_pos].split()[0]):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_VEL_OR_PRED])
                 sys.exit(self.ERROR_NO_VEL_OR_PRED)
         else:
             # But make sure the predictor is set back to False
-            # if we only have a blank line and nothing else following
+            # if we only have blank lines and nothing else following
             # the coordinates
             predictor = False
         if velocities:
@@ -315,8 +315,8 @@ class Poscar(BaseParser):
             # Now check if there is predictor-corrector coordinates following
             # the velocities
             loopmax_pos = nions + loopmax_pos
-            if len(poscar) > loopmax_pos:
-                if poscar[loopmax_pos].replace(' ', '') == '\n':
+            if any(line.strip() for line in poscar[loopmax_pos:]):
+                if not poscar[loopmax_pos].strip():
                     loopmax_pos = loopmax_pos + 1
                     if utils.is_number(poscar[loopmax_pos].split()[0]):
                         for i in range(nions):
-- 
2.43.0


From 6bba03c9f7683c382e4359fcfff588b61005afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 19/80] fix: Poscar.get returns the entry instead of raising
 AttributeError

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index e07dd48..af0ddc9 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -754,7 +754,7 @@ class Poscar(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From f8dc03cf0bb993a2bf2579673ff8c47f201338f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 20/80] fix: sites given to Poscar as dictionaries are kept as
 Site objects

---
 parsevasp/poscar.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index af0ddc9..a6b1eaf 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -145,8 +145,8 @@ class Poscar(BaseParser):
 
         """
 
-        sites = self._poscar_dict['sites']
-        for site in sites:
+        sites = list(self._poscar_dict['sites'])
+        for index, site in enumerate(sites):
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
                 direct = site['direct']
@@ -158,7 +158,9 @@ class Poscar(BaseParser):
                     if velocities is not None:
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
                     direct = True
-                site = Site(site['specie'], position, site['selective'], velocities, site['predictors'], direct)
+                sites[index] = Site(
+                    site['specie'], position, site['selective'], velocities, site['predictors'], direct
+                )
             else:
                 if not site.get_direct():
                     # Cartesian, so convert.
@@ -170,6 +172,7 @@ class Poscar(BaseParser):
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
                         site.set_velocities(velocities)
                     site.set_direct(True)
+        self._poscar_dict = dict(self._poscar_dict, sites=sites)
 
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
-- 
2.43.0


From 44951b1dbac7a5fdf231a575704d3c2963b20af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 21/80] fix: Poscar.modify refuses unknown entries whose name
 contains a known one

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index a6b1eaf..59c50b0 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -456,7 +456,7 @@ class Poscar(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('unitcell' in entry) or ('sites' in entry)):
+        if entry not in ('comment', 'unitcell', 'sites'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_ENTRY])
             sys.exit(self.ERROR_INVALID_ENTRY)
 
-- 
2.43.0


From c2c8505549481498177b4299a4997b3e9bbfc13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 22/80] fix: Poscar checks the type of the comment it is given

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 59c50b0..9c603b1 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -506,7 +506,7 @@ class Poscar(BaseParser):
                 self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
-- 
2.43.0


From b129ca665b86cf59b0d29d93ef369d5754119b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 23/80] fix: Poscar.modify refuses a list of sites with
 elements that are not sites

---
 parsevasp/poscar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 9c603b1..0e1c0e3 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -394,6 +394,8 @@ class Poscar(BaseParser):
         else:
             if entry == 'sites':
                 self._check_sites(sites=value)
+                for site in value:
+                    self._check_site(site)
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'unitcell':
-- 
2.43.0


From 98f547f583b5199d41c86d3c6899399cb25d32f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 24/80] fix: Cartesian sites given to Poscar.modify are
 converted like those given at construction

---
 parsevasp/poscar.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 0e1c0e3..d6cc946 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -162,18 +162,25 @@ class Poscar(BaseParser):
                     site['specie'], position, site['selective'], velocities, site['predictors'], direct
                 )
             else:
-                if not site.get_direct():
-                    # Cartesian, so convert.
-                    position = site.get_position()
-                    velocities = site.get_velocities()
-                    position = self._to_direct(position, self._poscar_dict['unitcell'])
-                    site.set_position(position)
-                    if velocities is not None:
-                        velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
-                        site.set_velocities(velocities)
-                    site.set_direct(True)
+                self._set_site_direct(site, self._poscar_dict['unitcell'])
         self._poscar_dict = dict(self._poscar_dict, sites=sites)
 
+    def _set_site_direct(self, site, unitcell):
+        """Convert the position and velocities of a Site object to direct coordinates, if necessary.
+
+        """
+
+        if not site.get_direct():
+            # Cartesian, so convert.
+            position = site.get_position()
+            velocities = site.get_velocities()
+            position = self._to_direct(position, unitcell)
+            site.set_position(position)
+            if velocities is not None:
+                velocities = self._to_direct(velocities, unitcell)
+                site.set_velocities(velocities)
+            site.set_direct(True)
+
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
         Go through the list and analyze for = and ; in order to
@@ -390,12 +397,15 @@ class Poscar(BaseParser):
             if not utils.is_number(site_number):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_SITE_NUMBER])
                 sys.exit(self.ERROR_SITE_NUMBER)
+            self._set_site_direct(value, self.entries['unitcell'])
             self.entries['sites'][site_number] = value
         else:
             if entry == 'sites':
                 self._check_sites(sites=value)
                 for site in value:
                     self._check_site(site)
+                for site in value:
+                    self._set_site_direct(site, self.entries['unitcell'])
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'unitcell':
-- 
2.43.0


From 569eea0dfbc6b53584a94965269bc09f0daa5ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 25/80] fix: Doscar reads the integrated density of states of
 spin-polarized calculations from its own columns

---
 parsevasp/doscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 04472c5..ec91f16 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -212,7 +212,7 @@ class Doscar(BaseParser):
             if num_spin == 1:
                 dos[name] = np.squeeze(dos_data[:, i + 1:i + 1 + num_spin], axis=1)
             else:
-                dos[name] = dos_data[:, i + 1:i + 1 + num_spin]
+                dos[name] = dos_data[:, i * num_spin + 1:(i + 1) * num_spin + 1]
 
         # Partial density of states
         pdos_items = []
-- 
2.43.0


From fa75c0c675da4a80a2a0f1fe6ae36e130ec2e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 26/80] fix: Doscar reads every orbital of projections with
 several spin components from its own columns

---
 parsevasp/doscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index ec91f16..d3c5d9f 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -237,7 +237,7 @@ class Doscar(BaseParser):
                 if num_spin == 1:  # Only squeeze if there is only one spin component
                     pdos[name] = np.squeeze(pdos_data[:, :, i + 1:i + 1 + num_spin], axis=2)
                 else:
-                    pdos[name] = pdos_data[:, :, i + 1:i + 1 + num_spin]
+                    pdos[name] = pdos_data[:, :, i * num_spin + 1:(i + 1) * num_spin + 1]
 
         metadata = {}
         metadata['n_ions'] = num_ions
-- 
2.43.0


From aa1ca131b4ecf62bd9ac2aaf2e0f21f89d369376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 27/80] fix: Doscar names the dx2-y2 orbital of non-collinear
 projections like all others

---
 parsevasp/doscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index d3c5d9f..deb1bfb 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -52,7 +52,7 @@ DTYPES_PDOS_NONCOLLINEAR = {
     37:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-              ('x2-y2', float, (4,))]),
+              ('dx2-y2', float, (4,))]),
     65:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-- 
2.43.0


From 4001b74991cb42bb56dcfa045819dad1820c6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 28/80] fix: Doscar refuses projections that stop before the
 last energy

---
 parsevasp/doscar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index deb1bfb..1ffd93d 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -223,6 +223,10 @@ class Doscar(BaseParser):
                 pdos_items += [data[start:start + ndos]]
                 start += (ndos + 1)
 
+            # All energies have to be there for all ions
+            if any(len(item) != ndos for item in pdos_items):
+                raise ValueError('The projections in DOSCAR are incomplete')
+
             # Get the number of columns for the pdos section.
             count = len(pdos_items[-1][-1])
             pdos_data = np.array(pdos_items)
-- 
2.43.0


From ada8f84747a95f8498b32ca810750d9e5da60aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 29/80] fix: Eigenval accepts blank lines at the end of the
 file

---
 parsevasp/eigenval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 79cfc4a..a327610 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -99,7 +99,7 @@ class Eigenval(BaseParser):
 
         # Datablocks
         data = re.split(utils.empty_line, data)
-        data = [[line.split() for line in block.splitlines()] for block in data]
+        data = [[line.split() for line in block.splitlines()] for block in data if block.strip()]
         kpoints = np.zeros((num_kp, 4))
         eigenvalues = np.zeros((num_spins, num_kp, num_bands))
         # Iterate over blocks, pr. k-point
-- 
2.43.0


From b6f9bc54d65719873fb649ec16896a4974ff1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 30/80] fix: Eigenval refuses files that stop early instead of
 filling up with zeros

---
 parsevasp/eigenval.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index a327610..36c11dc 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -100,6 +100,8 @@ class Eigenval(BaseParser):
         # Datablocks
         data = re.split(utils.empty_line, data)
         data = [[line.split() for line in block.splitlines()] for block in data if block.strip()]
+        if len(data) != num_kp:
+            raise ValueError(f'Found {len(data)} k-points in EIGENVAL, expected {num_kp}')
         kpoints = np.zeros((num_kp, 4))
         eigenvalues = np.zeros((num_spins, num_kp, num_bands))
         # Iterate over blocks, pr. k-point
@@ -110,6 +112,8 @@ class Eigenval(BaseParser):
             kpi = [float(x) for x in kpbs.pop(0)]
             kpoints[k] = kpi
             # The rest is the band energies
+            if len(kpbs) != num_bands:
+                raise ValueError(f'Found {len(kpbs)} bands at a k-point in EIGENVAL, expected {num_bands}')
             for point in kpbs:
                 eigenvalues[:, k, int(point[0]) - 1] = point[1:num_spins + 1]
 
-- 
2.43.0


From c58da2d55cb4000326d9b89cd1793d55cf8b4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 31/80] fix: Chgcar divides by the volume of the cell also for
 left-handed lattices

---
 parsevasp/chgcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 636b7ac..301c8cb 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -75,7 +75,7 @@ class Chgcar(BaseParser):
             # Calculate volume for later scaling
         volume = 1.0
         if volume:
-            volume = np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2]))
+            volume = abs(np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2])))
         # First line of content should now be NGXF, NGYF, NGZF
         temp = content.split('\n', 1)
         ngf_string = temp[0]
-- 
2.43.0


From b926c29b0db18c14bcc07fc0ac1b8389189c6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 32/80] fix: Chgcar accepts an empty line containing blanks
 after the positions

---
 parsevasp/chgcar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 301c8cb..9aaf949 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -1,4 +1,5 @@
 """Handle CHGCAR."""
+import re
 import sys
 
 import numpy as np
@@ -62,7 +63,7 @@ class Chgcar(BaseParser):
         """
         content = utils.read_from_file(self._file_path, self._file_handler, lines=False)
         # Extract header
-        temp = content.split('\n\n', 1)
+        temp = re.split(utils.empty_line, content, maxsplit=1)
         header = temp[0]
         content = temp[1]
         header = header.split('\n')
-- 
2.43.0


From 8c6c3eb03ed1256e94ee09ea6eca25e3a7ac65a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 33/80] fix: Chgcar refuses content that is not a number
 instead of inventing a value for it

---
 parsevasp/chgcar.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 9aaf949..74ded1f 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -89,24 +89,24 @@ class Chgcar(BaseParser):
         content = content.split(ngf_string)
         num_datasets = len(content)
         # First dataset is always there
-        self._data['total'] = np.fromstring(content[0].split('augmentation occupancies')[0], dtype=float,
-                                            sep=' ').reshape(ngf) / volume
+        self._data['total'] = np.array(content[0].split('augmentation occupancies')[0].split(),
+                                       dtype=float).reshape(ngf) / volume
         if num_datasets == 2:
             # Collinear spin
-            self._data['magnetization'] = np.fromstring(
-                content[1].split('augmentation occupancies')[0], dtype=float, sep=' '
+            self._data['magnetization'] = np.array(
+                content[1].split('augmentation occupancies')[0].split(), dtype=float
             ).reshape(ngf) / volume
         elif num_datasets == 4:
             # Non-collinear spin
             self._data['magnetization'] = {}
-            self._data['magnetization']['x'] = np.fromstring(
-                content[1].split('augmentation occupancies')[0], dtype=float, sep=' '
+            self._data['magnetization']['x'] = np.array(
+                content[1].split('augmentation occupancies')[0].split(), dtype=float
             ).reshape(ngf) / volume
-            self._data['magnetization']['y'] = np.fromstring(
-                content[2].split('augmentation occupancies')[0], dtype=float, sep=' '
+            self._data['magnetization']['y'] = np.array(
+                content[2].split('augmentation occupancies')[0].split(), dtype=float
             ).reshape(ngf) / volume
-            self._data['magnetization']['z'] = np.fromstring(
-                content[3].split('augmentation occupancies')[0], dtype=float, sep=' '
+            self._data['magnetization']['z'] = np.array(
+                content[3].split('augmentation occupancies')[0].split(), dtype=float
             ).reshape(ngf) / volume
 
     @property
-- 
2.43.0


From e2741d322fc2bb7402c5fd94764dc23fd8387f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 34/80] fix: Chgcar refuses a number of densities it can not
 assign

---
 parsevasp/chgcar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 74ded1f..03a23cd 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -108,6 +108,8 @@ class Chgcar(BaseParser):
             self._data['magnetization']['z'] = np.array(
                 content[3].split('augmentation occupancies')[0].split(), dtype=float
             ).reshape(ngf) / volume
+        elif num_datasets != 1:
+            raise ValueError(f'Found {num_datasets} densities in CHGCAR, expected 1, 2 or 4')
 
     @property
     def charge_density(self):
-- 
2.43.0


From 269bbd4dc53b7f0b793d185ac58fe36feec3774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 35/80] fix: Potcar finds the symbol in titles with several
 blanks between the words

---
 parsevasp/potcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2362ea6..1dc937a 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -142,7 +142,7 @@ class Potcar(BaseParser):
                 self.metadata[key] = _parameters_to_parse[key](val)
 
         try:
-            self._symbol = self.metadata['TITEL'].split(' ')[1].strip()
+            self._symbol = self.metadata['TITEL'].split()[1]
         except IndexError:
             self._symbol = self.metadata['TITEL'].strip()
 
-- 
2.43.0


From 019bf1deff6a7bcd1fde457d154822ae79a3e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 36/80] fix: Potcar reads numbers with a positive exponent

---
 parsevasp/potcar.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 1dc937a..e0050d3 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -113,21 +113,21 @@ class Potcar(BaseParser):
             'IUNSCR': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
             'NDATA': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
             'ICORE': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'EATOM': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RPACOR': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'POMASS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ZVAL': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCORE': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RWIGS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMIN': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCLOC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'EAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'DEXC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEP': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEPT': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
+            'EATOM': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RPACOR': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'POMASS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'ZVAL': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RCORE': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RWIGS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'ENMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'ENMIN': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RCLOC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'EAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'DEXC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RDEP': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
+            'RDEPT': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?[-+]?\d*', val).group(0)),
             'STEP': lambda val: [float(y) for y in re.split(r'\s+', val.strip()) if not y.isalpha()],
         }
         search_lines = re.search(
-- 
2.43.0


From 5dcbe0ff5edf6b38397923f76fb4dfdc4c2c30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 37/80] fix: Xml reads from handles opened in text mode

---
 parsevasp/vasprun.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fd31bde..77b5a8a 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1,6 +1,7 @@
 """Handle vasprun.xml."""
 # pylint: disable=C0302
 import copy
+import io
 import logging
 import os
 import sys
@@ -108,6 +109,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         self._sizecutoff = 500
         self._event = event
+        self._file_handler = self._get_binary_handler(self._file_handler)
 
         if self._file_path is None and self._file_handler is None:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_ONLY_ONE_ARGUMENT])
@@ -3602,6 +3604,30 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             return None
         return entry
 
+    @staticmethod
+    def _get_binary_handler(file_handler):
+        """Return a handler that yields bytes, which is what the XML libraries expect.
+
+        Parameters
+        ----------
+        file_handler : object
+            A file like object, opened in text or binary mode, or None.
+
+        Returns
+        -------
+        file_handler : object
+            A file like object in binary mode with the same content, or None.
+
+        """
+
+        if file_handler is None or isinstance(file_handler.read(0), bytes):
+            return file_handler
+        if hasattr(file_handler, 'buffer'):
+            return file_handler.buffer
+        # Text without underlying bytes, character references are independent of the declared encoding
+        file_handler.seek(0)
+        return io.BytesIO(file_handler.read().encode('ascii', 'xmlcharrefreplace'))
+
     def _set_file_size(self):
         """Returns the file size of a file.
 
-- 
2.43.0


From 44387c97f47943f7212a061d2728d105d4b40a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 38/80] fix: Xml does not take complete short files or files
 with trailing blank lines as truncated

---
 parsevasp/vasprun.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 77b5a8a..5625524 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3674,17 +3674,17 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # We here use seek to get the last kilobyte of the file and check that
         # it is truncated correctly. We can not use fileno as the file handler is not
         # always on a file system.
-        shift = self._file_size - 1024
-        if shift > 0:
+        shift = max(self._file_size - 1024, 0)
+        if self._file_size > 0:
             if self._file_handler is not None:
                 self._file_handler.seek(shift)
-                last_line = self._file_handler.readlines()[-1]
+                last_line = self._file_handler.read().rstrip().split(b'\n')[-1]
                 # Reset pointer
                 self._file_handler.seek(0)
             else:
                 with open(self._file_path, 'rb') as file_handler:
                     file_handler.seek(shift)
-                    last_line = file_handler.readlines()[-1]
+                    last_line = file_handler.read().rstrip().split(b'\n')[-1]
             if b'</modeling>' in last_line:
                 # The XML file is not truncated.
                 xml_truncated = False
-- 
2.43.0


From 709cde45dd29553da86184c6b94ffe51f31dafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 39/80] fix: Xml refuses rows of numbers that overflowed
 instead of reporting other numbers

---
 parsevasp/vasprun.py | 66 ++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 5625524..3dc4e2f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2648,12 +2648,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
-            try:
-                data = np.fromstring(entry.text, sep=' ', dtype='intc')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data = self._convert_text(entry.text, 'intc')
 
         return data
 
@@ -2677,12 +2672,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
-            try:
-                data = np.fromstring(entry.text, sep=' ', dtype='double')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data = self._convert_text(entry.text, 'double')
 
         return data
 
@@ -2708,12 +2698,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='intc')
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data[index] = self._convert_text(element.text, 'intc', 1)[0]
 
         return data
 
@@ -2740,12 +2725,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='double')
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data[index] = self._convert_text(element.text, 'double', 1)[0]
 
         return data
 
@@ -2775,12 +2755,38 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             data = np.zeros((len(entry), dim), dtype='double')
 
         for index, element in enumerate(entry):
-            try:
-                data[index] = np.fromstring(element.text, sep=' ')
-            except ValueError as err:
-                if str(err) == 'setting an array element with a sequence.':
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                    sys.exit(self.ERROR_OVERFLOW)
+            data[index] = self._convert_text(element.text, 'double', dim)
+
+        return data
+
+    def _convert_text(self, text, dtype, size=None):
+        """
+        Convert text to numbers, refuse it if any of them did not fit its field.
+
+        Parameters
+        ----------
+        text : string
+            A string containing numbers separated by blank spaces.
+        dtype : string
+            The type of the numbers.
+        size : int, optional
+            The count of numbers that is expected.
+
+        Returns
+        -------
+        data : ndarray
+            | Dimension: (N)
+            An array containing N numbers.
+
+        """
+
+        try:
+            data = np.array((text or '').split(), dtype=dtype)
+        except ValueError:
+            data = None
+        if data is None or (size is not None and data.size != size):
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
+            sys.exit(self.ERROR_OVERFLOW)
 
         return data
 
-- 
2.43.0


From 98a6f47103ddec6ee242e188991a080899f74009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 40/80] fix: Xml keeps the quantities of each ionic step under
 the number of that step

---
 parsevasp/vasprun.py | 115 +++++++++++--------------------------------
 1 file changed, 28 insertions(+), 87 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 3dc4e2f..4a02218 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1522,95 +1522,36 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 force[1] = None
                 force[2] = None
         else:
-            structures = self._findall(xml, './/calculation/structure')
-            entrycell = self._findall(xml, './/calculation/structure/crystal/varray[@name="basis"]/v')
-            entrypos = self._findall(xml, './/calculation/structure/varray[@name="positions"]/v')
-            entryforce = self._findall(xml, './/calculation/varray[@name="forces"]/v')
-            entrystress = self._findall(xml, './/calculation/varray[@name="stress"]/v')
-
-            if structures is not None:
-                num_calcs = len(structures)
-            else:
+            if self._findall(xml, './/calculation/structure') is None:
                 return None, None, None, None
 
-            num_entrycell = 0
-            num_entrypos = 0
-            num_entryforce = 0
-            num_entrystress = 0
-
-            if entrycell is not None:
-                num_entrycell = len(entrycell)
-                cell[1] = self._convert_array2D_f(entrycell[0:3], 3)
-                if num_entrycell > 3:
-                    cell[2] = self._convert_array2D_f(entrycell[-3:], 3)
-                else:
-                    cell[2] = None
-            else:
-                cell[1] = None
-                cell[2] = None
-
-            if entrypos is not None:
-                num_entrypos = len(entrypos)
-                pos[1] = self._convert_array2D_f(entrypos[0:num_atoms], 3)
-                if num_entrypos > 3:
-                    pos[2] = self._convert_array2D_f(entrypos[-num_atoms:], 3)
-                else:
-                    pos[2] = None
-            else:
-                pos[1] = None
-                pos[2] = None
-
-            if entryforce is not None:
-                num_entryforce = len(entryforce)
-                force[1] = self._convert_array2D_f(entryforce[0:num_atoms], 3)
-                if num_entryforce > 3:
-                    force[2] = self._convert_array2D_f(entryforce[-num_atoms:], 3)
-                else:
-                    force[2] = None
-            else:
-                force[1] = None
-                force[2] = None
-
-            if entrystress is not None:
-                num_entrystress = len(entrystress)
-                stress[1] = self._convert_array2D_f(entrystress[0:3], 3)
-                if num_entrystress > 3:
-                    stress[2] = self._convert_array2D_f(entrystress[-3:], 3)
-                else:
-                    stress[2] = None
-            else:
-                stress[1] = None
-                stress[2] = None
-
-            max_entries = max(num_entrystress, max(num_entryforce, max(num_entrycell, num_entrypos)))
-            if max_entries > 6:
-                for calc in range(1, num_calcs):
-                    basecell = calc * 3
-                    basepos = calc * num_atoms
-                    if entrycell is not None:
-                        cell[calc + 1] = self._convert_array2D_f(entrycell[basecell:basecell + 3], 3)
-                    if entrypos is not None:
-                        pos[calc + 1] = self._convert_array2D_f(entrypos[basepos:basepos + num_atoms], 3)
-                    if entryforce is not None:
-                        force[calc + 1] = self._convert_array2D_f(entryforce[basepos:basepos + num_atoms], 3)
-                    if entrystress is not None:
-                        stress[calc + 1] = self._convert_array2D_f(entrystress[basecell:basecell + 3], 3)
-
-        # If we still only have one entry, or number two is None, last and initial should
-        # be the same, force them to be similar. We could do this earlier, but this is done
-        # to keep it tidy, and if one in the future would like to utilize the returned None.
-        if cell:
-            if len(cell) == 1 or cell[2] is None:
-                cell[2] = cell[1]
-        if pos:
-            if len(pos) == 1 or pos[2] is None:
-                pos[2] = pos[1]
-        if force:
-            if len(force) == 1 or force[2] is None:
-                force[2] = force[1]
-        if stress:
-            if len(stress) == 1 or stress[2] is None:
-                stress[2] = stress[1]
+            # A step does not need to contain all quantities, so go through them one by one
+            calcs = self._findall(xml, './/calculation')
+            for index, calc in enumerate(calcs):
+                for data, locator in (
+                    (cell, './structure/crystal/varray[@name="basis"]/v'),
+                    (pos, './structure/varray[@name="positions"]/v'),
+                    (force, './varray[@name="forces"]/v'),
+                    (stress, './varray[@name="stress"]/v'),
+                ):
+                    entry = self._findall(calc, locator)
+                    if entry is not None:
+                        data[index + 1] = self._convert_array2D_f(entry, 3)
+
+            # With only one ionic step, last and initial are the same
+            if len(calcs) == 1:
+                for data in (cell, pos, force, stress):
+                    if data:
+                        data[2] = data[1]
+
+            return cell or None, pos or None, force or None, stress or None
+
+        # If number two is None, last and initial should be the same, force them to be similar.
+        # We could do this earlier, but this is done to keep it tidy, and if one in the future
+        # would like to utilize the returned None.
+        for data in (cell, pos, force, stress):
+            if data[2] is None:
+                data[2] = data[1]
 
         return cell, pos, force, stress
 
-- 
2.43.0


From 69957236f3ca44576cc8694a404078249393a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 41/80] fix: Xml does not report the initial structure as the
 last when the final one is cut off

---
 parsevasp/vasprun.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 4a02218..a65a1f0 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1484,7 +1484,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         num_atoms = species.shape[0]
 
         if not extract_all:
-            entry = self._findall(xml, './/structure[@name="finalpos"]/crystal/varray[@name="basis"]/v')
+            # If the file ends before the final structure, the one of the last ionic step is the last
+            last = (self._findall(xml, './/calculation/structure') or [xml])[-1]
+            entry = self._findall(xml, './/structure[@name="finalpos"]/crystal/varray[@name="basis"]/v') or \
+                self._findall(last, './crystal/varray[@name="basis"]/v')
             if entry is not None:
                 cell[2] = self._convert_array2D_f(entry, 3)
             else:
@@ -1494,7 +1497,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 cell[1] = self._convert_array2D_f(entry, 3)
             else:
                 cell[1] = None
-            entry = self._findall(xml, './/structure[@name="finalpos"]/varray[@name="positions"]/v')
+            entry = self._findall(xml, './/structure[@name="finalpos"]/varray[@name="positions"]/v') or \
+                self._findall(last, './varray[@name="positions"]/v')
             if entry is not None:
                 pos[2] = self._convert_array2D_f(entry, 3)
             else:
-- 
2.43.0


From eb5ebee7637a3ee0d99ad5583548bf482b17b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 42/80] fix: Xml reports the energies of the completed ionic
 steps independently of the others

---
 parsevasp/vasprun.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index a65a1f0..de9c485 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1954,20 +1954,21 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             energies_pr_calc = {}
             for supported_energy, supported_key in _SUPPORTED_TOTAL_ENERGIES.items():
                 data = self._findall(calc, './/scstep/energy/i[@name="' + supported_key + '"]')
-                if data is None:
-                    return None
-                data = self._convert_array1D_f(data)
-                energies_pr_calc[supported_energy] = data
+                energies_pr_calc[supported_energy] = self._convert_array1D_f(data or [])
 
                 # now fetch the final entry outside the sc steps for each calculation
                 # this term might have been corrected and scaled compared to the final sc energy
                 # extrapolated energy
-                data = self._findall(calc, './energy/i[@name="' + supported_key + '"]')
+                data = self._find(calc, './energy/i[@name="' + supported_key + '"]')
                 if data is None:
-                    return None
-                data = self._convert_f(data[0])
-                energies_pr_calc[supported_energy + '_final'] = data
-            energies[index + 1] = energies_pr_calc
+                    # Not a completed ionic step, or there are no energies
+                    break
+                energies_pr_calc[supported_energy + '_final'] = self._convert_f(data)
+            else:
+                energies[index + 1] = energies_pr_calc
+
+        if not energies:
+            return None
 
         return energies
 
-- 
2.43.0


From 162ea1bf3774b63264177bd51ddc3b18e6efb5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 43/80] fix: Xml does not mix the density of states with the
 one of other k-points or ionic steps

---
 parsevasp/vasprun.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index de9c485..bc4bc5d 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1989,25 +1989,27 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        # Fetch the Fermi level
-        entry = self._find(xml, './/calculation/dos/i[@name="efermi"]')
-
-        if entry is not None:
-            fermi_level = self._convert_f(entry)
-        else:
-            fermi_level = None
-
-        # Spin 1
-        entry_total_ispin1 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 1"]/r')
+        # There can be one for each ionic step, report the last, as for the event driven parsing,
+        # and leave those on specific k-point grids to the next part
+        entries = [entry for entry in self._findall(xml, './/calculation/dos') or [] if entry.get('comment') is None]
+        last = entries[-1:]
 
-        # Spin 2
-        entry_total_ispin2 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 2"]/r')
-
-        # Partial spin 1
-        entry_partial_ispin1 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 1"]/r')
-
-        # Partial spin 2
-        entry_partial_ispin2 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 2"]/r')
+        # Fetch the Fermi level
+        fermi_level = None
+        for entry in last:
+            entry = self._find(entry, './i[@name="efermi"]')
+            if entry is not None:
+                fermi_level = self._convert_f(entry)
+
+        # Spin 1 and 2, then partial spin 1 and 2
+        entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2 = [
+            self._findall(last[0], locator) if last else None for locator in (
+                './total/array/set/set[@comment="spin 1"]/r',
+                './total/array/set/set[@comment="spin 2"]/r',
+                './partial/array/set/set/set[@comment="spin 1"]/r',
+                './partial/array/set/set/set[@comment="spin 2"]/r',
+            )
+        ]
 
         # If no entries for spin 1, eject right away
         if entry_total_ispin1 is None:
-- 
2.43.0


From 056aa4bbadda677605353c9203fde8b18f345b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 44/80] fix: Xml reports the bands of the last ionic step that
 has them

---
 parsevasp/vasprun.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index bc4bc5d..8b2c4c8 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1765,13 +1765,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        # There can be one for each ionic step, report the last
+        xml = (self._findall(xml, './/calculation/eigenvalues/array') or [xml])[-1]
+
         # Spin 1
-        entry_ispin1 = self._findall(xml, './/calculation/eigenvalues/array/set/'
-                                     'set[@comment="spin 1"]/set/r')
+        entry_ispin1 = self._findall(xml, './set/set[@comment="spin 1"]/set/r')
 
         # Spin 2
-        entry_ispin2 = self._findall(xml, './/calculation/eigenvalues/array/set/'
-                                     'set[@comment="spin 2"]/set/r')
+        entry_ispin2 = self._findall(xml, './set/set[@comment="spin 2"]/set/r')
 
         # If we do not find spin 1 entries return right away
         if entry_ispin1 is None:
@@ -1901,13 +1902,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        # There can be one for each ionic step, report the last
+        xml = (self._findall(xml, './/calculation/projected/array') or [xml])[-1]
+
         # Projectors spin 1
-        entry_ispin1 = self._findall(xml, './/calculation/projected/array/set/'
-                                     'set[@comment="spin1"]/set/set/r')
+        entry_ispin1 = self._findall(xml, './set/set[@comment="spin1"]/set/set/r')
 
         # Projectors spin 2
-        entry_ispin2 = self._findall(xml, './/calculation/projected/array/set/'
-                                     'set[@comment="spin2"]/set/set/r')
+        entry_ispin2 = self._findall(xml, './set/set[@comment="spin2"]/set/set/r')
 
         # If we do not find spin 1 entries return right away
         if entry_ispin1 is None:
-- 
2.43.0


From 7b09c06b5bb128034078e6f97519473556010f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 45/80] fix: Xml reports the density of states of specific
 k-points also without the other

---
 parsevasp/vasprun.py | 90 +++++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 56 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 8b2c4c8..81f95a8 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1991,49 +1991,36 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        # There can be one for each ionic step, report the last, as for the event driven parsing,
-        # and leave those on specific k-point grids to the next part
-        entries = [entry for entry in self._findall(xml, './/calculation/dos') or [] if entry.get('comment') is None]
-        last = entries[-1:]
+        # Those calculated at specific k-point grids carry a comment
+        return self._fetch_last_dosw(xml, None), self._fetch_last_dosw(xml, 'interpolated')
 
-        # Fetch the Fermi level
-        fermi_level = None
-        for entry in last:
-            entry = self._find(entry, './i[@name="efermi"]')
-            if entry is not None:
-                fermi_level = self._convert_f(entry)
-
-        # Spin 1 and 2, then partial spin 1 and 2
-        entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2 = [
-            self._findall(last[0], locator) if last else None for locator in (
-                './total/array/set/set[@comment="spin 1"]/r',
-                './total/array/set/set[@comment="spin 2"]/r',
-                './partial/array/set/set/set[@comment="spin 1"]/r',
-                './partial/array/set/set/set[@comment="spin 2"]/r',
-            )
-        ]
+    def _fetch_last_dosw(self, xml, comment):
+        """
+        Fetch the last density of states with the given comment using etree.
 
-        # If no entries for spin 1, eject right away
-        if entry_total_ispin1 is None:
-            return None, None
+        Parameters
+        ----------
+        xml : object
+            An ElementTree object to be used for parsing.
+        comment : string
+            The comment of the density of states, or None.
 
-        num_atoms = 0
-        species = self._lattice['species']
-        if species is None:
-            # Try to fetch species again, if still none, we cannot parse it
-            # and thus we cannot parse the entries in here either.
-            species = self._fetch_speciesw(xml)
-            if species is None:
-                return None, None
-        num_atoms = species.shape[0]
+        Returns
+        -------
+        dos : dict
+            Dictionary with ndarrays containing the energies, total and
+            integrated density of states, or None if there are none.
 
-        dos = self._extract_dos(
-            entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
-        )
+        """
+
+        # There can be one for each ionic step, report the last
+        entries = [entry for entry in self._findall(xml, './/calculation/dos') or [] if entry.get('comment') == comment]
+        if not entries:
+            return None
+        xml = entries[-1]
 
-        # Now extract the density of states for specific k-point grids
-        # fetch the Fermi level again as this can be different
-        entry = self._find(xml, './/calculation/dos[@comment="interpolated"]/i[@name="efermi"]')
+        # Fetch the Fermi level
+        entry = self._find(xml, './i[@name="efermi"]')
 
         if entry is not None:
             fermi_level = self._convert_f(entry)
@@ -2041,35 +2028,26 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             fermi_level = None
 
         # Spin 1
-        entry_total_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 1"]/r'
-        )
+        entry_total_ispin1 = self._findall(xml, './total/array/set/set[@comment="spin 1"]/r')
 
         # Spin 2
-        entry_total_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 2"]/r'
-        )
+        entry_total_ispin2 = self._findall(xml, './total/array/set/set[@comment="spin 2"]/r')
 
         # Partial spin 1
-        entry_partial_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 1"]/r'
-        )
+        entry_partial_ispin1 = self._findall(xml, './partial/array/set/set/set[@comment="spin 1"]/r')
 
         # Partial spin 2
-        entry_partial_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 2"]/r'
-        )
+        entry_partial_ispin2 = self._findall(xml, './partial/array/set/set/set[@comment="spin 2"]/r')
 
         # If no entries for spin 1, eject right away
-        if entry_total_ispin1 is None:
-            return dos, None
+        if entry_total_ispin1 is None or self._lattice['species'] is None:
+            return None
 
-        dos_specific = self._extract_dos(
-            entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
+        return self._extract_dos(
+            entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level,
+            self._lattice['species'].shape[0]
         )
 
-        return dos, dos_specific
-
     def _extract_dos(
         self, entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
     ):
-- 
2.43.0


From a3e8db4ccbd60ae7775ebf2841a7c71a05eaa23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 46/80] fix: Xml reads projections onto any number of orbitals

---
 parsevasp/vasprun.py | 48 +++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 81f95a8..fff9e18 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -485,16 +485,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2)
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos:
@@ -555,16 +555,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2)
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos_specific:
@@ -2091,9 +2091,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosup['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1)
                 # do not need the energy term (similar to total)
-                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosup['partial'] = None
             dos['up'] = _dosup
@@ -2101,9 +2101,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosdown['total'] = dos_ispin[:, 1]
             _dosdown['integrated'] = dos_ispin[:, 2]
             if entry_partial_ispin2:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin2)
                 # do not need the energy term (similar to total)
-                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosdown['partial'] = None
             dos['down'] = _dosdown
@@ -2118,9 +2118,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dos['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1)
                 # do not need the energy term (similar to total)
-                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dos['partial'] = None
             _dos['fermi_level'] = fermi_level
@@ -2528,14 +2528,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if len(spin1) != num_bands * num_kpoints * num_atoms:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
             sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-        pdata.append(self._convert_array2D_f(spin1, 9))
+        pdata.append(self._convert_array2D_f(spin1))
         pdata[0] = np.asarray(np.split(pdata[0], num_kpoints))
         pdata[0] = np.asarray(np.split(pdata[0], num_bands, axis=1))
         if spin2 is not None:
             if len(spin2) != num_bands * num_kpoints * num_atoms:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
                 sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-            pdata.append(self._convert_array2D_f(spin2, 9))
+            pdata.append(self._convert_array2D_f(spin2))
             pdata[1] = np.asarray(np.split(pdata[1], num_kpoints))
             pdata[1] = np.asarray(np.split(pdata[1], num_bands, axis=1))
 
@@ -2657,7 +2657,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return data
 
-    def _convert_array2D_f(self, entry, dim):  # pylint: disable=C0103
+    def _convert_array2D_f(self, entry, dim=None):  # pylint: disable=C0103
         """
         Convert the input entry to numpy array.
 
@@ -2666,8 +2666,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         entry : list
             A list containing Element objects where each
             element is a float
-        dim : int
-            The dimension of the second index.
+        dim : int, optional
+            The dimension of the second index, by default the one of the first element.
 
         Returns
         -------
@@ -2680,6 +2680,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
+            if dim is None:
+                dim = len((entry[0].text or '').split())
             data = np.zeros((len(entry), dim), dtype='double')
 
         for index, element in enumerate(entry):
-- 
2.43.0


From e946552151043131f49cb324c353866716eca622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 47/80] fix: Xml event driven parsing does not mix the density
 of states with the specific one

---
 parsevasp/vasprun.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fff9e18..b35e196 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1,6 +1,5 @@
 """Handle vasprun.xml."""
 # pylint: disable=C0302
-import copy
 import io
 import logging
 import os
@@ -517,7 +516,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
-                    self._data['dos'] = copy.deepcopy(dos)
+                    self._data['dos'] = dos
+                    dos = {}
                     data = []
                     data2 = []
                     data6 = []
@@ -588,6 +588,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
                     self._data['dos_specific'] = dos
+                    dos = {}
                     data = []
                     data2 = []
                     data6 = []
-- 
2.43.0


From 00d483bf9d57f8d369a8fc0dcec833f7bbdd3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 48/80] fix: Xml event driven parsing does not take
 magnetization projections as a spin channel

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index b35e196..c19a033 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -483,7 +483,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
-                    if data2:
+                    if _dos2 and data2:
                         dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
                         _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
@@ -554,7 +554,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
-                    if data2:
+                    if _dos2 and data2:
                         dos_ispin = self._convert_array2D_f(data)
                         # Do not need the energy term (similar to total)
                         _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
-- 
2.43.0


From 0098714d5a83b610f2da12d90e348a06ab0da7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 49/80] fix: Xml event driven parsing reads text only once it
 is complete

---
 parsevasp/vasprun.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index c19a033..1f2ed4a 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -396,54 +396,54 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # Now fetch the data
             if extract_generator:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'version':
+                    if event == 'end' and element.attrib['name'] == 'version':
                         self._version = element.text
                 except KeyError:
                     pass
             if extract_parameters:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYMPREC':
+                    if event == 'end' and element.attrib['name'] == 'SYMPREC':
                         self._parameters['symprec'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISPIN':
+                    if event == 'end' and element.attrib['name'] == 'ISPIN':
                         self._parameters['ispin'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISMEAR':
+                    if event == 'end' and element.attrib['name'] == 'ISMEAR':
                         self._parameters['ismear'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SIGMA':
+                    if event == 'end' and element.attrib['name'] == 'SIGMA':
                         self._parameters['sigma'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NBANDS':
+                    if event == 'end' and element.attrib['name'] == 'NBANDS':
                         self._parameters['nbands'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELECT':
+                    if event == 'end' and element.attrib['name'] == 'NELECT':
                         self._parameters['nelect'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYSTEM':
+                    if event == 'end' and element.attrib['name'] == 'SYSTEM':
                         self._parameters['system'] = element.text
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELM' \
+                    if event == 'end' and element.attrib['name'] == 'NELM' \
                         and element.getparent().attrib['name'] == 'electronic convergence':
                         self._parameters['nelm'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NSW':
+                    if event == 'end' and element.attrib['name'] == 'NSW':
                         self._parameters['nsw'] = self._convert_i(element)
                 except KeyError:
                     pass
@@ -775,17 +775,17 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
                 if extract_energies:
                     # Extrapolated energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
-                        totens[calc].update({'energy_extrapolated_final': float(element.text)})
+                        totens[calc].update({'energy_extrapolated_final': self._convert_f(element)})
                     # Free energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
-                        totens[calc].update({'energy_free_final': float(element.text)})
+                        totens[calc].update({'energy_free_final': self._convert_f(element)})
                     # Energy without entropy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
-                        totens[calc].update({'energy_no_entropy_final': float(element.text)})
+                        totens[calc].update({'energy_no_entropy_final': self._convert_f(element)})
 
                 if extract_eigenvalues:
                     if event == 'start' and element.tag == 'set' \
@@ -969,7 +969,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         if event == 'start' and element.tag == 'v':
                             data.append(element)
                     try:
-                        if event == 'start' and \
+                        if event == 'end' and \
                            element.attrib['name'] == 'eigenvalues':
                             dynmat['eigenvalues'] = self._convert_array_f(element)
                     except KeyError:
@@ -985,7 +985,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
             if extract_kpointdata:
                 try:
-                    if event == 'start' and element.tag == 'v' and \
+                    if event == 'end' and element.tag == 'v' and \
                        element.attrib['name'] == 'divisions':
                         self._lattice['kpointdiv'] = self._convert_array_i(element)
                 except KeyError:
-- 
2.43.0


From dcb4d856928333c8b5686f7414fcbf20d6ba582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 50/80] fix: Xml event driven parsing reports only the energies
 of completed ionic steps

---
 parsevasp/vasprun.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 1f2ed4a..0f824b1 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1070,22 +1070,12 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if not stress:
             stress = None
 
-        # Check totens for entries, if all arrays empty and no float detected set force totens to None
-        found_totens = False
-        for energies in totens.values():
-            for value in energies.values():
-                try:
-                    if value.size != 0:
-                        # Fails if there is a float for value and if there is a float, there is a value, so
-                        # protected by try block, or we have entries for the array values.
-                        found_totens = True
-                        break
-                except AttributeError:
-                    found_totens = True
-            if found_totens:
-                break
-
-        if not found_totens:
+        # Only keep the total energies of the completed ionic steps
+        totens = {
+            key: energies for key, energies in totens.items()
+            if all(supported_energy + '_final' in energies for supported_energy in _SUPPORTED_TOTAL_ENERGIES)
+        }
+        if not totens:
             totens = None
 
         # Store
-- 
2.43.0


From f8cdac258e3e0ffb42d17805b45869b058b420b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 51/80] fix: Xml returns the energies of ionic steps without
 electronic steps

---
 parsevasp/vasprun.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 0f824b1..85c09f5 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3206,26 +3206,23 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # of the electronic steps and applying corrections.
             energy_per_etype = np.array([])
             electronic_steps = np.array([], dtype=int)
-            steps = 1
             if status == 'initial':
                 # Initial ionic step
                 energy_per_etype = np.append(energy_per_etype, energies_from_xml[1][item + '_final'])
+                energies_at_item = energies_from_xml[1][item]
                 if nosc:
-                    energies_at_item = energies_from_xml[1][item][-1]
-                else:
-                    energies_at_item = energies_from_xml[1][item]
-                    steps = len(energies_at_item)
+                    energies_at_item = energies_at_item[-1:]
+                steps = len(energies_at_item)
                 energies_per_etype = np.append(energies_per_etype, energies_at_item)
                 electronic_steps = np.append(electronic_steps, steps)
             elif status == 'last':
                 # Last ionic step
                 largest_key = max(energies_from_xml.keys())
                 energy_per_etype = np.append(energy_per_etype, energies_from_xml[largest_key][item + '_final'])
+                energies_at_item = energies_from_xml[largest_key][item]
                 if nosc:
-                    energies_at_item = energies_from_xml[largest_key][item][-1]
-                else:
-                    energies_at_item = energies_from_xml[largest_key][item]
-                    steps = len(energies_at_item)
+                    energies_at_item = energies_at_item[-1:]
+                steps = len(energies_at_item)
                 energies_per_etype = np.append(energies_per_etype, energies_at_item)
                 electronic_steps = np.append(electronic_steps, steps)
             elif status == 'all':
@@ -3241,11 +3238,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     energy_per_etype = np.append(energy_per_etype, element[item + '_final'])
                     # Then fetch the energies for the electronic steps and how many
                     # steps was performed
+                    energies_at_item = element[item]
                     if nosc:
-                        energies_at_item = element[item][-1]
-                    else:
-                        energies_at_item = element[item]
-                        steps = len(energies_at_item)
+                        energies_at_item = energies_at_item[-1:]
+                    steps = len(energies_at_item)
                     # Set the energy for all or just the last electronic step, in
                     # addition to the electronic steps for this ionic step
                     energies_per_etype = np.append(energies_per_etype, energies_at_item)
-- 
2.43.0


From 93e2ca66c529cabcbf10246efb5540ee26c2b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 52/80] fix: Xml leaves out the section inside which a
 truncated file ends

---
 parsevasp/vasprun.py | 45 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 85c09f5..e3f7045 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -221,10 +221,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # enabled at all times, so consider to add check for
         # truncated XML files and then enable
         if USE_LXML and xml_truncated:
-            if xml_truncated:
-                self._logger.debug('Running LXML in recovery mode.')
-            parser = etree.XMLParser(recover=True)
-            vaspxml = etree.parse(filer, parser=parser)
+            self._logger.debug('Running LXML up to the point of truncation.')
+            vaspxml = self._parse_truncated(filer)
         else:
             vaspxml = etree.parse(filer)
 
@@ -260,6 +258,45 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         self._data['dynmat'] = self._fetch_dynmatw(vaspxml)
         self._data['born'] = self._fetch_bornw(vaspxml)
 
+    @staticmethod
+    def _parse_truncated(filer):
+        """
+        Parse a truncated XML file, leave out the section that is incomplete.
+
+        Parameters
+        ----------
+        filer : object
+            The path or file like object to parse.
+
+        Returns
+        -------
+        vaspxml : object
+            An ElementTree object.
+
+        """
+
+        opened = []
+        root = None
+        try:
+            for event, element in etree.iterparse(filer, events=('start', 'end')):
+                if event == 'start':
+                    root = element if root is None else root
+                    opened.append(element)
+                else:
+                    opened.pop()
+        except etree.XMLSyntaxError:
+            if root is None:
+                raise
+
+        # Calculations may lack sections, but the first section inside which the file ends
+        # does not contain all its values, some of them maybe only in part
+        for parent, element in zip(opened, opened[1:]):
+            if element.tag != 'calculation':
+                parent.remove(element)
+                break
+
+        return root.getroottree()
+
     def _parsee(self):  # pylint: disable=R0915
         """
         Performs parsing in an event driven fashion on the XML file.
-- 
2.43.0


From dedf01cb15d1d2f2f6189eab7fdbd76c5d8780e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 53/80] fix: Xml reports no Born charges when they can not be
 assigned

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index e3f7045..988cba9 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1462,7 +1462,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # and thus we cannot parse the entries in here either.
             species = self._fetch_speciesw(xml)
             if species is None:
-                return None, None, None, None
+                return None
         num_atoms = species.shape[0]
 
         born = self._convert_array2D_f(entry, 3)
-- 
2.43.0


From 47c2e6732989f229c06316f8f2487c2f4754203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 54/80] fix: Xml does not concatenate different dielectric
 functions

---
 parsevasp/vasprun.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 988cba9..a1774b7 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2227,10 +2227,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             elif transfer == 'current':
                 tag = 'dielectricfunction[@comment="current-current"]'
             else:
-                tag = 'dielectricfunction'
+                # Defaults to the density-density, if the file makes the distinction
+                tag = 'dielectricfunction[@comment="density-density"]'
+                if self._find(xml, './/calculation/' + tag) is None:
+                    tag = 'dielectricfunction'
+
+            # There can be several, report the last
+            function = (self._findall(xml, './/calculation/' + tag) or [xml])[-1]
 
             # imaginary part
-            entry = self._findall(xml, './/calculation/' + tag + '/imag/array/set/r')
+            entry = self._findall(function, './imag/array/set/r')
             if entry is None:
                 diel['imag'] = None
                 diel['energy'] = None
@@ -2240,7 +2246,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 diel['imag'] = data[:, 1:7]
 
             # real part
-            entry = self._findall(xml, './/calculation/' + tag + '/real/array/set/r')
+            entry = self._findall(function, './real/array/set/r')
             if entry is None:
                 diel['real'] = None
             else:
-- 
2.43.0


From 40f41e4cb5a2ffe7882b020da185ce18d83a8eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 55/80] fix: Xml event driven parsing reports the dielectric
 tensors

---
 parsevasp/vasprun.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index a1774b7..bd353b3 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -325,6 +325,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         dynmat = {}
         _dos = {}
         _dos2 = {}
+        _diel = {'energy': None, 'imag': None, 'real': None, 'epsilon': None, 'epsilon_ion': None}
 
         # Bool to control extraction of content
         extract_generator = False
@@ -366,6 +367,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         extract_e_wo_entrp = False
         extract_scstep = False
         extract_dielectrics = False
+        found_density_density = False
         extract_eig_proj = False
         extract_eig_proj_ispin1 = False
         extract_eig_proj_ispin2 = False
@@ -707,14 +709,21 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'dielectricfunction':
                     extract_dielectrics = True
                 if event == 'end' and element.tag == 'dielectricfunction':
-                    _diel = {}
-                    diel = np.split(self._convert_array2D_f(data, 7), 2)
-                    _diel['energy'] = diel[0][:, 0]
-                    _diel['imag'] = diel[0][:, 1:7]
-                    _diel['real'] = diel[1][:, 1:7]
-                    self._data['dielectrics'] = _diel
+                    # Defaults to the density-density, if the file makes the distinction, otherwise the last
+                    density_density = element.attrib.get('comment') == 'density-density'
+                    if density_density or not found_density_density:
+                        diel = np.split(self._convert_array2D_f(data, 7), 2)
+                        _diel['energy'] = diel[0][:, 0]
+                        _diel['imag'] = diel[0][:, 1:7]
+                        _diel['real'] = diel[1][:, 1:7]
+                        self._data['dielectrics'] = _diel
+                    found_density_density = found_density_density or density_density
                     data = []
                     extract_dielectrics = False
+                if event == 'end' and element.tag == 'varray' and \
+                   element.attrib.get('name') in ('epsilon', 'epsilon_ion'):
+                    _diel[element.attrib['name']] = self._convert_array2D_f(list(element), 3)
+                    self._data['dielectrics'] = _diel
                 if event == 'start' and element.tag == 'dynmat':
                     extract_dynmat = True
                 if event == 'end' and element.tag == 'dynmat':
-- 
2.43.0


From fffc6ebc263f791ae1db47ee3362062f29345232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 56/80] fix: Xml reports absent dielectric tensors, Fermi
 levels and versions as absent

---
 parsevasp/vasprun.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index bd353b3..926a65f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2953,7 +2953,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
     def get_epsilon(self):
         """
         Return the """
-        epsilon = self._data['dielectrics']['epsilon']
+        epsilon = (self._data['dielectrics'] or {}).get('epsilon')
         return epsilon
 
     def get_epsilon_ion(self):
@@ -2968,7 +2968,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        epsilon_ion = self._data['dielectrics']['epsilon_ion']
+        epsilon_ion = (self._data['dielectrics'] or {}).get('epsilon_ion')
         return epsilon_ion
 
     def get_fermi_level(self):
@@ -2982,6 +2982,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dos'] is None:
+            return None
         fermi_level = self._data['dos']['total']['fermi_level']
         return fermi_level
 
@@ -2997,6 +2999,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dos_specific'] is None:
+            return None
         fermi_level_specific = self._data['dos_specific']['total']['fermi_level']
         return fermi_level_specific
 
@@ -3511,6 +3515,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         import re
 
+        if self._version is None:
+            return None
         version = self._version.strip()
         # The version entry in the xml file is typically of the form
         # X.Y.Z or X.Y.Z.something so only keep three integers and two dots
-- 
2.43.0


From 7bbe4d3fee90977583cd319e7aa910573dac6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:18 +0000
Subject: [PATCH 57/80] fix: Xml event driven parsing reports no dynamical
 matrix when there is only a Hessian

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 926a65f..23a1edb 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -727,7 +727,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'dynmat':
                     extract_dynmat = True
                 if event == 'end' and element.tag == 'dynmat':
-                    self._data['dynmat'] = dynmat
+                    self._data['dynmat'] = dynmat or None
                     extract_dynmat = False
                 if event == 'start' and element.tag == 'array':
                     # A bit of special threatment here as there is
-- 
2.43.0


From 9fc7eec374ca0a4b4369422caec7682646f72643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 58/80] fix: INCAR, POSCAR and KPOINTS refuse every combination
 of several sources

---
 parsevasp/incar.py   | 6 ++----
 parsevasp/kpoints.py | 6 ++----
 parsevasp/poscar.py  | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index f55f0eb..6b5fec9 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -72,10 +72,8 @@ class Incar(BaseParser):
         self._width = self._prec + 4
 
         # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._incar_string is not None and self._incar_dict is not None) or (
-            self._incar_string is not None and self._file_path is not None
-        ) or (self._incar_dict is not None and self._file_path is not None) and self._file_handler is not None:
+        sources = [self._incar_string, self._incar_dict, self._file_path, self._file_handler]
+        if len([source for source in sources if source is not None]) > 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index c23b911..79df447 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -98,10 +98,8 @@ class Kpoints(BaseParser):
         self._width = self._prec + 4
 
         # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._kpoints_string is not None and self._kpoints_dict is not None) or (
-            self._kpoints_string is not None and self._file_path is not None
-        ) or (self._kpoints_dict is not None and self._file_path is not None and self._file_handler is not None):
+        sources = [self._kpoints_string, self._kpoints_dict, self._file_path, self._file_handler]
+        if len([source for source in sources if source is not None]) > 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index d6cc946..b2c829c 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -80,10 +80,8 @@ class Poscar(BaseParser):
         self._conserve_order = conserve_order
 
         # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._poscar_string is not None and self._poscar_dict is not None) or (
-            self._poscar_string is not None and self._file_path is not None
-        ) or (self._poscar_dict is not None and self._file_path is not None and self._file_handler is not None):
+        sources = [self._poscar_string, self._poscar_dict, self._file_path, self._file_handler]
+        if len([source for source in sources if source is not None]) > 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
-- 
2.43.0


From d78fa059ef10afe955d6183481b85794064fba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 59/80] fix: the read-only parsers refuse a path together with
 a handler

---
 parsevasp/chgcar.py   | 3 ++-
 parsevasp/doscar.py   | 3 ++-
 parsevasp/eigenval.py | 3 ++-
 parsevasp/outcar.py   | 3 ++-
 parsevasp/potcar.py   | 4 ++++
 parsevasp/stream.py   | 3 ++-
 parsevasp/vasprun.py  | 2 +-
 7 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 03a23cd..c0f36e2 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -34,7 +34,8 @@ class Chgcar(BaseParser):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
-        if self._file_path is None and self._file_handler is None:
+        # check that not both are supplied
+        if self._file_path is not None and self._file_handler is not None:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 1ffd93d..68a8d8d 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -129,7 +129,8 @@ class Doscar(BaseParser):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
-        if self._file_path is None and self._file_handler is None:
+        # check that not both are supplied
+        if self._file_path is not None and self._file_handler is not None:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 36c11dc..362e3ee 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -34,7 +34,8 @@ class Eigenval(BaseParser):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
-        if self._file_path is None and self._file_handler is None:
+        # check that not both are supplied
+        if self._file_path is not None and self._file_handler is not None:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index de61531..9c55408 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -38,7 +38,8 @@ class Outcar(BaseParser):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
-        if self._file_path is None and self._file_handler is None:
+        # check that not both are supplied
+        if self._file_path is not None and self._file_handler is not None:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index e0050d3..23f7d8d 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -13,6 +13,7 @@ pymatgen also uses the MIT license so see this plugins LICENSE file for its copy
 """
 
 import re
+import sys
 
 from parsevasp import utils
 from parsevasp.base import BaseParser
@@ -75,6 +76,9 @@ class Potcar(BaseParser):
         self._symbol = None
         self._element = None
 
+        if self._file_path is not None and self._file_handler is not None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
+            sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         if self._file_path is not None or self._file_handler is not None:
             self._from_file()
         if self._file_path is None and self._file_handler is None:
diff --git a/parsevasp/stream.py b/parsevasp/stream.py
index b4d3dd2..e1186e9 100644
--- a/parsevasp/stream.py
+++ b/parsevasp/stream.py
@@ -54,7 +54,8 @@ class Stream(BaseParser):  # pylint: disable=R0902
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
-        if self._file_path is None and self._file_handler is None:
+        # check that not both are supplied
+        if self._file_path is not None and self._file_handler is not None:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 23a1edb..5e24cd8 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -110,7 +110,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         self._event = event
         self._file_handler = self._get_binary_handler(self._file_handler)
 
-        if self._file_path is None and self._file_handler is None:
+        if (self._file_path is None) == (self._file_handler is None):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_ONLY_ONE_ARGUMENT])
             sys.exit(self.ERROR_ONLY_ONE_ARGUMENT)
 
-- 
2.43.0


From dbe2b9710c694d96c04f32baf0e4ea3ca5c95447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 60/80] fix: a vasprun.xml that does not exist exits with the
 documented error

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 5e24cd8..9103ce9 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3625,7 +3625,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # check if file exists
             if not utils.file_exists(self._file_path, logger=self._logger):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SIZE])
-                return None
+            self._check_file()
 
             # Size given in bytes, assuming it is a file and it sits in a filesystem
             file_size = os.stat(self._file_path).st_size
-- 
2.43.0


From 57375a867f9f60199d8b8d936112f11e6b92c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 61/80] fix: writing a POTCAR is refused instead of leaving an
 empty file

---
 parsevasp/potcar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 23f7d8d..b0b9eb1 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -212,5 +212,6 @@ class Potcar(BaseParser):
         except Exception as exc:
             raise AttributeError(attribute) from exc
 
-    def _write(self, file_handler, **kwargs):
-        pass
+    def _write(self, *args, **kwargs):
+        """Write not supported for POTCAR."""
+        raise NotImplementedError('Writing POTCAR files is not supported.')
-- 
2.43.0


From f2a2b396b04b66cf418d2128758a56e92d8b43b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 62/80] fix: a refused write left an empty file, and handlers
 were left beyond their end

---
 parsevasp/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index 249ca50..a1b6d8d 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -1,5 +1,6 @@
 """Base class to handle VASP files."""
 # pylint: disable=consider-using-with
+import io
 import logging
 import os
 import sys
@@ -86,13 +87,17 @@ class BaseParser(ABC):  # pylint: disable=R0903
 
         file_path = kwargs.pop('file_path', '')
         file_handler = kwargs.pop('file_handler', '')
+
+        # Do the write for each specific content parser _write function using a buffer, also
+        # bring any extra arguments. In this way nothing is touched if there is nothing to be written.
+        content = io.StringIO()
+        self._write(content, **kwargs)
+
         if file_path:
             # Open file
             file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
 
-        # Do the write for each specific content parser _write function using handler, also
-        # bring any extra arguments.
-        self._write(file_handler, **kwargs)
+        file_handler.write(content.getvalue())
 
         if file_path:
             # Close file
-- 
2.43.0


From da9e97045cc8d85ce9f9a90098dbe228e0e80bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:38 +0000
Subject: [PATCH 63/80] fix: Kpoints kept and changed the caller's dictionary
 and list of points

---
 parsevasp/kpoints.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 79df447..025617b 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -124,6 +124,11 @@ class Kpoints(BaseParser):
         # Validate dictionary
         self._validate()
 
+        # Do not share the supplied dictionary and its list of points
+        self.entries = dict(self.entries)
+        if self.entries['points'] is not None:
+            self.entries['points'] = list(self.entries['points'])
+
     def _from_file(self):
         """Create rudimentary dictionary of entries from a
         file.
@@ -327,6 +332,7 @@ class Kpoints(BaseParser):
                         point = self._to_direct(point)
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
                         sys.exit(self.ERROR_CONVERSION)
+                value = list(value)
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'divisions':
-- 
2.43.0


From 5431622f164da329f369c711857dc7f8f688589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:38 +0000
Subject: [PATCH 64/80] fix: Poscar converted and shared the caller's sites in
 place

---
 parsevasp/poscar.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index b2c829c..978f25a 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -160,24 +160,21 @@ class Poscar(BaseParser):
                     site['specie'], position, site['selective'], velocities, site['predictors'], direct
                 )
             else:
-                self._set_site_direct(site, self._poscar_dict['unitcell'])
+                sites[index] = self._get_direct_site(site, self._poscar_dict['unitcell'])
         self._poscar_dict = dict(self._poscar_dict, sites=sites)
 
-    def _set_site_direct(self, site, unitcell):
-        """Convert the position and velocities of a Site object to direct coordinates, if necessary.
+    def _get_direct_site(self, site, unitcell):
+        """Return the Site object in direct coordinates. A supplied Cartesian Site object is left as it is.
 
         """
 
-        if not site.get_direct():
-            # Cartesian, so convert.
-            position = site.get_position()
-            velocities = site.get_velocities()
-            position = self._to_direct(position, unitcell)
-            site.set_position(position)
-            if velocities is not None:
-                velocities = self._to_direct(velocities, unitcell)
-                site.set_velocities(velocities)
-            site.set_direct(True)
+        if site.get_direct():
+            return site
+        position = self._to_direct(site.get_position(), unitcell)
+        velocities = site.get_velocities()
+        if velocities is not None:
+            velocities = self._to_direct(velocities, unitcell)
+        return Site(site.get_specie(), position, site.get_selective(), velocities, site.get_predictors(), True)
 
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
@@ -395,15 +392,13 @@ class Poscar(BaseParser):
             if not utils.is_number(site_number):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_SITE_NUMBER])
                 sys.exit(self.ERROR_SITE_NUMBER)
-            self._set_site_direct(value, self.entries['unitcell'])
-            self.entries['sites'][site_number] = value
+            self.entries['sites'][site_number] = self._get_direct_site(value, self.entries['unitcell'])
         else:
             if entry == 'sites':
                 self._check_sites(sites=value)
                 for site in value:
                     self._check_site(site)
-                for site in value:
-                    self._set_site_direct(site, self.entries['unitcell'])
+                value = [self._get_direct_site(site, self.entries['unitcell']) for site in value]
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'unitcell':
-- 
2.43.0


From 3f9febb149c90b8766b4cbc2e2872f327010bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 65/80] fix: refuse POSCAR dictionaries and values that are
 incomplete or of a wrong type with the documented errors

---
 parsevasp/poscar.py | 51 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 978f25a..2680949 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -3,6 +3,7 @@
 import io
 import sys
 from collections import Counter
+from collections.abc import Mapping
 
 import numpy as np
 
@@ -143,10 +144,16 @@ class Poscar(BaseParser):
 
         """
 
+        # Make sure there is something to convert
+        self.entries = self._poscar_dict
+        self._check_unitcell()
+        self._check_sites()
+
         sites = list(self._poscar_dict['sites'])
         for index, site in enumerate(sites):
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
+                self._check_site_dict(site)
                 direct = site['direct']
                 position = site['position']
                 velocities = site['velocities']
@@ -383,6 +390,12 @@ class Poscar(BaseParser):
         self._check_allowed_entries(entry)
         # Check that entries exists
         self._check_dict()
+        # Check that there is a value, only the comment can be without one
+        if value is None and entry != 'comment':
+            self._logger.error(
+                f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key '{entry}' can not be None."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
         if site_number is not None:
             # Check that a Site() object is supplied
             self._check_site(value)
@@ -396,8 +409,12 @@ class Poscar(BaseParser):
         else:
             if entry == 'sites':
                 self._check_sites(sites=value)
-                for site in value:
-                    self._check_site(site)
+                if not all(isinstance(site, Site) for site in value):
+                    self._logger.error(
+                        f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
+                        "The elements of the key 'sites' are not Site() objects."
+                    )
+                    sys.exit(self.ERROR_KEY_INVALID_TYPE)
                 value = [self._get_direct_site(site, self.entries['unitcell']) for site in value]
             if entry == 'comment':
                 self._check_comment(comment=value)
@@ -482,7 +499,7 @@ class Poscar(BaseParser):
             try:
                 unitcell = self.entries['unitcell']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'unitcell'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'unitcell'.")
                 sys.exit(self.ERROR_NO_KEY)
 
         if (not isinstance(unitcell, np.ndarray)) \
@@ -508,7 +525,7 @@ class Poscar(BaseParser):
             try:
                 comment = self.entries['comment']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if comment is not None:
@@ -534,7 +551,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
@@ -555,7 +572,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
             for _site in sites:
                 if not isinstance(_site, Site):
@@ -571,6 +588,28 @@ class Poscar(BaseParser):
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
+    def _check_site_dict(self, site):
+        """
+        Check that the site is a dictionary with the entries needed for a Site() object.
+
+        Parameters
+        ----------
+        site
+            The site to be checked.
+
+        """
+
+        if not isinstance(site, Mapping):
+            self._logger.error(
+                f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
+                "The elements of the key 'sites' are neither Site() objects nor dictionaries."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
+        for key in ('specie', 'position', 'selective', 'velocities', 'predictors', 'direct'):
+            if key not in site:
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is '{key}'.")
+                sys.exit(self.ERROR_NO_KEY)
+
     def _check_site_number(self, site_number):
         """
         Check that the site_number is an int and that
-- 
2.43.0


From 062d07c98f4353f233a84c12ecf4625dcfb56d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 66/80] fix: refuse KPOINTS dictionaries and values that are
 incomplete or of a wrong type with the documented errors

---
 parsevasp/kpoints.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 025617b..9e26d0f 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -309,6 +309,12 @@ class Kpoints(BaseParser):
         self._check_allowed_entries(entry)
         # Check that entries exists
         self._check_dict()
+        # Check that there is a value for the entries that can not be without one
+        if value is None and (point_number is not None or entry == 'num_kpoints'):
+            self._logger.error(
+                f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key '{entry}' can not be None."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
         if point_number is not None:
             # Check that a Kpoint() object is supplied
             self._check_point(value)
@@ -327,12 +333,13 @@ class Kpoints(BaseParser):
                 self._check_points(points=value)
                 # Check that all points are in direct, if not,
                 # convert
-                for point in value:
-                    if not point.get_direct():
-                        point = self._to_direct(point)
-                        self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
-                        sys.exit(self.ERROR_CONVERSION)
-                value = list(value)
+                if value is not None:
+                    for point in value:
+                        if not point.get_direct():
+                            point = self._to_direct(point)
+                            self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
+                            sys.exit(self.ERROR_CONVERSION)
+                    value = list(value)
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'divisions':
@@ -407,8 +414,8 @@ class Kpoints(BaseParser):
 
         # Check that at least divisions or points are set
         # to something else than None
-        if ((self.entries['divisions'] is None) and (self.entries['points'] is None) and
-            (self.entries['generating_vectors'] is None)):
+        if ((self.entries.get('divisions') is None) and (self.entries.get('points') is None) and
+            (self.entries.get('generating_vectors') is None)):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_DIVISIONS])
             sys.exit(self.ERROR_DIVISIONS)
 
@@ -480,6 +487,9 @@ class Kpoints(BaseParser):
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'points' should be a list."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            if not all(isinstance(point, Kpoint) for point in points):
+                self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
+                sys.exit(self.ERROR_WRONG_OBJECT)
 
     def _check_point(self, point=None):
         """
-- 
2.43.0


From 0e4f151193b97ef674bff834d92b5303e7adedb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 67/80] fix: refuse k-point divisions, shifts and generating
 vectors that are not three

---
 parsevasp/kpoints.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 9e26d0f..b352e83 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -557,9 +557,9 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'shifts'.")
                 sys.exit(self.ERROR_NO_KEY)
         if shifts is not None:
-            if not isinstance(shifts, list):
+            if not isinstance(shifts, list) or len(shifts) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'shifts' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'shifts' should be a list of three."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
@@ -615,9 +615,9 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'divisions'.")
                 sys.exit(self.ERROR_NO_KEY)
         if divisions is not None:
-            if not isinstance(divisions, list):
+            if not isinstance(divisions, list) or len(divisions) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'divisions' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'divisions' should be a list of three."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
@@ -649,17 +649,18 @@ class Kpoints(BaseParser):
                 )
                 sys.exit(self.ERROR_NO_KEY)
         if generating_vectors is not None:
-            if not isinstance(generating_vectors, list):
+            if not isinstance(generating_vectors, list) or len(generating_vectors) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'generating_vectors' should be a list."
+                    f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
+                    "The key 'generating_vectors' should be a list of three."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
                 for vec in generating_vectors:
-                    if not isinstance(vec, list):
+                    if not isinstance(vec, list) or len(vec) != 3:
                         self._logger.error(
                             f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
-                            "The key 'generating_vectors' should be a list of lists."
+                            "The key 'generating_vectors' should be a list of lists of three."
                         )
                         sys.exit(self.ERROR_KEY_INVALID_TYPE)
                     for element in vec:
-- 
2.43.0


From 2cb56109335768328d86c57f063ece58501e7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 68/80] fix: vasprun.xml: report the last of several response
 tensors, Born charges and separate k-point sections

---
 parsevasp/vasprun.py | 61 +++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 40 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 9103ce9..011fb56 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1458,8 +1458,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        entry = self._findall(xml, './/calculation/array[@name="born_charges"]/'
-                              'set/v')
+        # There can be one for each ionic step, report the last
+        charges = (self._findall(xml, './/calculation/array[@name="born_charges"]') or [xml])[-1]
+        entry = self._findall(charges, './set/v')
 
         if entry is None:
             return None
@@ -1837,29 +1838,18 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        # There can be one for each ionic step, report the last
+        section = (self._findall(xml, './/calculation/eigenvalues/eigenvalues/..') or [xml])[-1]
+
         # Spin 1
-        entry_ispin1 = self._findall(
-            xml, './/calculation/eigenvalues/'
-            'eigenvalues/array/set/'
-            'set[@comment="spin 1"]/set/r'
-        )
+        entry_ispin1 = self._findall(section, './eigenvalues/array/set/set[@comment="spin 1"]/set/r')
         # Spin 2
-        entry_ispin2 = self._findall(
-            xml, './/calculation/eigenvalues/'
-            'eigenvalues/array/set/'
-            'set[@comment="spin 2"]/set/r'
-        )
+        entry_ispin2 = self._findall(section, './eigenvalues/array/set/set[@comment="spin 2"]/set/r')
         if entry_ispin1 is not None:
             # Also extract the k-point grids
-            self._data['kpoints'] = self._fetch_kpointsw(
-                xml, path='.//calculation/eigenvalues/'
-                'kpoints/varray[@name="kpointlist"]/v'
-            )
+            self._data['kpoints'] = self._fetch_kpointsw(section, path='./kpoints/varray[@name="kpointlist"]/v')
 
-            self._data['kpointsw'] = self._fetch_kpointsww(
-                xml, path='//calculation/eigenvalues/'
-                'kpoints/varray[@name="weights"]/v'
-            )
+            self._data['kpointsw'] = self._fetch_kpointsww(section, path='./kpoints/varray[@name="weights"]/v')
 
         # If we do not find spin 1 entries return right away
         if entry_ispin1 is None:
@@ -1890,33 +1880,22 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        # There can be one for each ionic step, report the last
+        section = (self._findall(xml, './/calculation/eigenvelocities/eigenvalues/..') or [xml])[-1]
+
         # Spin 1
-        entry_ispin1 = self._findall(
-            xml, './/calculation/eigenvelocities/'
-            'eigenvalues/array/set/'
-            'set[@comment="spin 1"]/set/r'
-        )
+        entry_ispin1 = self._findall(section, './eigenvalues/array/set/set[@comment="spin 1"]/set/r')
 
         # Spin 2
-        entry_ispin2 = self._findall(
-            xml, './/calculation/eigenvelocities/'
-            'eigenvalues/array/set/'
-            'set[@comment="spin 2"]/set/r'
-        )
+        entry_ispin2 = self._findall(section, './eigenvalues/array/set/set[@comment="spin 2"]/set/r')
 
         # If we do not find spin 1 entries return right away
         if entry_ispin1 is None:
             return None
 
-        self._data['kpoints'] = self._fetch_kpointsw(
-            xml, path='.//calculation/eigenvelocities/'
-            'kpoints/varray[@name="kpointlist"]/v'
-        )
+        self._data['kpoints'] = self._fetch_kpointsw(section, path='./kpoints/varray[@name="kpointlist"]/v')
 
-        self._data['kpointsw'] = self._fetch_kpointsww(
-            xml, path='//calculation/eigenvelocities/'
-            'kpoints/varray[@name="weights"]/v'
-        )
+        self._data['kpointsw'] = self._fetch_kpointsww(section, path='./kpoints/varray[@name="weights"]/v')
 
         eigenvelocities = self._extract_eigenvelocities(entry_ispin1, entry_ispin2, len(self._data['kpoints']))
 
@@ -2263,14 +2242,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 diel['real'] = data[:, 1:7]
 
             # epsilon part
-            entry = self._findall(xml, './/calculation/varray[@name="epsilon"]/v')
+            tensor = (self._findall(xml, './/calculation/varray[@name="epsilon"]') or [xml])[-1]
+            entry = self._findall(tensor, './v')
             if entry is not None:
                 diel['epsilon'] = self._convert_array2D_f(entry, 3)
             else:
                 diel['epsilon'] = None
 
             # ionic epsilon part
-            entry = self._findall(xml, './/calculation/varray[@name="epsilon_ion"]/v')
+            tensor = (self._findall(xml, './/calculation/varray[@name="epsilon_ion"]') or [xml])[-1]
+            entry = self._findall(tensor, './v')
             if entry is not None:
                 diel['epsilon_ion'] = self._convert_array2D_f(entry, 3)
             else:
-- 
2.43.0


From f900e522c5435bf3f4748c05d11fc623e61b2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:17 +0000
Subject: [PATCH 69/80] fix: read handles with Windows line endings like paths

---
 parsevasp/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 8d06eb0..33dfe2b 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -46,10 +46,11 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
 
     if input_file_handler is not None:
         inputfile = input_file_handler
+        # Make sure the line endings are the ones we get from a path
         if not lines:
             # Only want a string of file content, return.
-            return inputfile.read()
-        file_data = inputfile.readlines()
+            return inputfile.read().replace('\r\n', '\n')
+        file_data = [line.replace('\r\n', '\n') for line in inputfile.readlines()]
     else:
         inputfile = open_close_file_handler(file_name=file_name, status='r', encoding=encoding, logger=logger)
         if not lines:
-- 
2.43.0


From 7f0dd5a6822d27938faaea4ecb03fa6a250e999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:44 +0000
Subject: [PATCH 70/80] fix: write zeros for sites without velocities or
 predictors when others have them

---
 parsevasp/poscar.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 2680949..d676a5f 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -691,6 +691,13 @@ class Poscar(BaseParser):
                 predictors = True
             sites.append([specie, position, select, direct, vel, pre])
             species.append(specie)
+        # The blocks of velocities and predictors have a line for each site
+        # so sites where these are not given get zeros
+        for site in sites:
+            if velocities and site[4] is None:
+                site[4] = np.zeros(3)
+            if predictors and site[5] is None:
+                site[5] = np.zeros(3)
 
         if not self._conserve_order:
             # Find unique entries and their number
-- 
2.43.0


From 156f004422737eca9af1156bc974137eb3c082ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:40 +0000
Subject: [PATCH 71/80] fix: refuse edits which address a numbered element of
 an entry other than the list

---
 parsevasp/kpoints.py | 6 ++++++
 parsevasp/poscar.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index b352e83..09785f5 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -315,6 +315,12 @@ class Kpoints(BaseParser):
                 f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key '{entry}' can not be None."
             )
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
+        # Check that only elements of the list are addressed by a number
+        if point_number is not None and entry != 'points':
+            self._logger.error(
+                f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key '{entry}' has no numbered elements."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
         if point_number is not None:
             # Check that a Kpoint() object is supplied
             self._check_point(value)
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index d676a5f..194e445 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -396,6 +396,12 @@ class Poscar(BaseParser):
                 f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key '{entry}' can not be None."
             )
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
+        # Check that only elements of the list are addressed by a number
+        if site_number is not None and entry != 'sites':
+            self._logger.error(
+                f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key '{entry}' has no numbered elements."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
         if site_number is not None:
             # Check that a Site() object is supplied
             self._check_site(value)
-- 
2.43.0


From bbbe42d9932315d541720267f1490d968ee8a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:50 +0000
Subject: [PATCH 72/80] fix: refuse INCAR values and comments which can not be
 written on their line

---
 parsevasp/incar.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 6b5fec9..07a6cb9 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -447,6 +447,7 @@ class IncarItem:
 
     ERROR_VALUES_NOT_SAME_TYPE = 104
     ERROR_INVALID_TYPE = 105
+    ERROR_INVALID_CHARACTER = 106
 
     def __init__(self, tag, value, comment, logger=None):
         """
@@ -536,8 +537,27 @@ class IncarItem:
         # However, let us also open for the fact that users might
         # give a value what they would in INCAR
 
+        # Signs which end a value in INCAR can not be a part of it, since the entry
+        # that is written is then not the one that is read. Likewise for line breaks,
+        # unless the value is to be split at these anyway
+        free_text = clean_tag in ('system', 'magmom', 'm_constr')
+        if isinstance(value, list):
+            forbidden = [(element, '#;=\r\n') for element in value if isinstance(element, str)]
+        elif isinstance(value, str):
+            forbidden = [(value.strip(), '#;=\r\n' if free_text else '#;=')]
+        else:
+            forbidden = []
+        if comment is not None:
+            forbidden.append((comment.strip(), '\r\n'))
+        if any(sign in text for text, signs in forbidden for sign in signs):
+            self._logger.error(
+                'The signs #, ; and = or line breaks can not be a part of a value or a comment. '
+                f'The tag in question is: {clean_tag.upper()}'
+            )
+            sys.exit(self.ERROR_INVALID_CHARACTER)
+
         if isinstance(value, str):
-            if clean_tag in ('system', 'magmom', 'm_constr'):
+            if free_text:
                 # If value is SYSTEM or MAGMOM (can contain asterix), treat it a bit special and
                 # leave its string intact but remove grub
                 clean_value = value.strip()
-- 
2.43.0


From a028a88b90bf623ea6bc60ffe8a5628be3bad2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:04 +0000
Subject: [PATCH 73/80] fix: refuse POSCAR and KPOINTS comments of several
 lines

---
 parsevasp/kpoints.py | 4 ++--
 parsevasp/poscar.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 09785f5..d7f9614 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -462,9 +462,9 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if comment is not None:
-            if not isinstance(comment, str):
+            if not isinstance(comment, str) or '\n' in comment or '\r' in comment:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string of one line."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 194e445..c2751bd 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -535,9 +535,9 @@ class Poscar(BaseParser):
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if comment is not None:
-            if not isinstance(comment, str):
+            if not isinstance(comment, str) or '\n' in comment or '\r' in comment:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string of one line."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
-- 
2.43.0


From 9ca0d2ed5721eedf59731290eba63119d61c55c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:21 +0000
Subject: [PATCH 74/80] fix: report problems with files to the logger given

---
 parsevasp/chgcar.py   | 2 +-
 parsevasp/doscar.py   | 2 +-
 parsevasp/eigenval.py | 2 +-
 parsevasp/incar.py    | 2 +-
 parsevasp/kpoints.py  | 2 +-
 parsevasp/outcar.py   | 2 +-
 parsevasp/poscar.py   | 2 +-
 parsevasp/potcar.py   | 4 +++-
 parsevasp/stream.py   | 2 +-
 9 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index c0f36e2..02f9f15 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -62,7 +62,7 @@ class Chgcar(BaseParser):
         This method is presently not optimized to use as little memory as possible.
 
         """
-        content = utils.read_from_file(self._file_path, self._file_handler, lines=False)
+        content = utils.read_from_file(self._file_path, self._file_handler, lines=False, logger=self._logger)
         # Extract header
         temp = re.split(utils.empty_line, content, maxsplit=1)
         header = temp[0]
diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 68a8d8d..730544e 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -156,7 +156,7 @@ class Doscar(BaseParser):
 
         """
 
-        doscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        doscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(doscar)
 
     def _from_list(self, doscar):
diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 362e3ee..64146b1 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -64,7 +64,7 @@ class Eigenval(BaseParser):
 
         """
 
-        eigenval = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        eigenval = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(eigenval)
 
     def _from_list(self, eigenval):
diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 07a6cb9..10add6a 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -110,7 +110,7 @@ class Incar(BaseParser):
 
         """
 
-        incar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        incar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         return incar
 
     def _from_string(self):
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index d7f9614..9630fe0 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -135,7 +135,7 @@ class Kpoints(BaseParser):
 
         """
 
-        kpoints = utils.read_from_file(self._file_path, self._file_handler)
+        kpoints = utils.read_from_file(self._file_path, self._file_handler, logger=self._logger)
         kpoints_dict = self._from_list(kpoints)
         return kpoints_dict
 
diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 9c55408..5fab8eb 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -111,7 +111,7 @@ class Outcar(BaseParser):
         file and store them in the this instance's data dictionary.
         """
 
-        outcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        outcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(outcar)
 
     def _from_list(self, outcar):  # pylint: disable=R0915
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index c2751bd..bec13f6 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -124,7 +124,7 @@ class Poscar(BaseParser):
 
         """
 
-        poscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        poscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         poscar_dict = self._from_list(poscar)
         return poscar_dict
 
diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index b0b9eb1..bfd5188 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -90,7 +90,9 @@ class Potcar(BaseParser):
 
         """
 
-        potcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', lines=False)
+        potcar = utils.read_from_file(
+            self._file_path, self._file_handler, encoding='utf8', lines=False, logger=self._logger
+        )
 
         return self._generate_metadata(potcar)
 
diff --git a/parsevasp/stream.py b/parsevasp/stream.py
index e1186e9..2f02a84 100644
--- a/parsevasp/stream.py
+++ b/parsevasp/stream.py
@@ -187,7 +187,7 @@ class Stream(BaseParser):  # pylint: disable=R0902
 
         """
 
-        stream = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        stream = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(stream)
 
     def _from_list(self, stream):
-- 
2.43.0


From 7e92e0f224b7252c8090924c6369cd6c4c54521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:26 +0000
Subject: [PATCH 75/80] fix: report an INCAR entry of several comments as an
 error

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 10add6a..5090f87 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -216,7 +216,7 @@ class Incar(BaseParser):
             if isinstance(value, str):
                 comment = value.split('#')
                 if len(comment) > 2:
-                    self._logger.info(
+                    self._logger.error(
                         f'{self.ERROR_MESSAGES[self.ERROR_MULTIPLE_COMMENTS]} The tag {str(tag)} is affected.'
                     )
                     sys.exit(self.ERROR_MULTIPLE_COMMENTS)
-- 
2.43.0


From 2ddfaefb9785e164f97381010239ce79109af6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:55 +0000
Subject: [PATCH 76/80] fix: words such as nan, inf and 1_000 are strings in an
 INCAR

---
 parsevasp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 33dfe2b..366516b 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -161,6 +161,9 @@ def test_string_content(string):
         is just a regular string.
 
     """
+    # Words like nan, inf or 1_000 are accepted by float as well
+    if re.search(r'[^-+.0-9eE\s]', string):
+        return 'string'
     try:
         float(string)
         return 'int' if ((string.count('.') == 0) and \
-- 
2.43.0


From 64d6fb54e5809daa29429b6ba4e65819ec731d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:55 +0000
Subject: [PATCH 77/80] fix: an INCAR word is a flag only if it starts as one

---
 parsevasp/incar.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 5090f87..26ae641 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -632,16 +632,8 @@ class IncarItem:
             depending on what is detected.
 
         """
-        if '.True.' in string \
-           or '.TRUE.' in string \
-           or '.true.' in string \
-           or '.t.' in string \
-           or '.T.' in string:
+        if string.startswith(('.True.', '.TRUE.', '.true.', '.t.', '.T.')):
             return True
-        if '.False.' in string \
-             or '.FALSE.' in string \
-             or '.false.' in string \
-             or '.f.' in string \
-             or '.F.' in string:
+        if string.startswith(('.False.', '.FALSE.', '.false.', '.f.', '.F.')):
             return False
         return string
-- 
2.43.0


From daa7f75c96ecc3593c2dc867e00733b06460b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:55 +0000
Subject: [PATCH 78/80] fix: counts line of a VASP 4 POSCAR with any blanks is
 recognized

---
 parsevasp/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 366516b..33533c0 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -192,8 +192,9 @@ def is_numbers(string, splitter=' '):
 
     """
 
-    entries = string.split(splitter)
-    is_nums = True
+    # Any number of blanks might separate, precede or follow the numbers
+    entries = string.split() if splitter == ' ' else string.split(splitter)
+    is_nums = bool(entries)
     for entry in entries:
         if not is_number(entry):
             is_nums = False
-- 
2.43.0


From 880a64a96d57afe1b80c3f8b32a01534b5c5d5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:55 +0000
Subject: [PATCH 79/80] fix: read_from_file returns a line once and takes a
 single identifier

---
 parsevasp/utils.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 33533c0..16cbe6a 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -65,19 +65,16 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
     parsed = []
 
     # first check if contains is a list
-    is_list = is_sequence(contains)
+    if contains is not None and not is_sequence(contains):
+        contains = [contains]
 
     if contains is not None:
         # this can be a bit faster (comprehension), but do not care for this
         # now
         for _, line in enumerate(file_data):
-            if is_list:
-                for element in contains:
-                    if element in line:
-                        parsed.append(line)
-            else:
-                if contains in line:
-                    parsed = line
+            # A line is returned once, whatever the number of identifiers in it
+            if any(element in line for element in contains):
+                parsed.append(line)
     else:
         parsed = file_data
 
@@ -137,9 +134,10 @@ def is_sequence(arg):
 
     """
 
-    if not hasattr(arg, 'strip') and hasattr(arg, '__getitem__'):
-        return True
-    if hasattr(arg, '__iter__'):
+    # A string is not a list, even though its characters can be iterated over
+    if hasattr(arg, 'strip'):
+        return False
+    if hasattr(arg, '__getitem__') or hasattr(arg, '__iter__'):
         return True
     return False
 
-- 
2.43.0


From 39fab52457e705e803302a9c06740861251ed1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:19 +0000
Subject: [PATCH 80/80] fix: files are closed when reading or writing them
 fails

---
 parsevasp/base.py  | 11 ++++++-----
 parsevasp/utils.py | 14 ++++++++------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index a1b6d8d..e3819aa 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -97,11 +97,12 @@ class BaseParser(ABC):  # pylint: disable=R0903
             # Open file
             file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
 
-        file_handler.write(content.getvalue())
-
-        if file_path:
-            # Close file
-            open_close_file_handler(file_handler=file_handler, logger=self._logger)
+        try:
+            file_handler.write(content.getvalue())
+        finally:
+            if file_path:
+                # Close file
+                open_close_file_handler(file_handler=file_handler, logger=self._logger)
 
     def _check_file(self, file_path=None):
         """
diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 16cbe6a..5b64398 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -53,12 +53,14 @@ def read_from_file(file_name, input_file_handler, contains=None, lines=True, enc
         file_data = [line.replace('\r\n', '\n') for line in inputfile.readlines()]
     else:
         inputfile = open_close_file_handler(file_name=file_name, status='r', encoding=encoding, logger=logger)
-        if not lines:
-            # Only want a string of file content, return.
-            file_data = inputfile.read()
-        else:
-            file_data = inputfile.readlines()
-        open_close_file_handler(logger, file_handler=inputfile, logger=logger)
+        try:
+            if not lines:
+                # Only want a string of file content, return.
+                file_data = inputfile.read()
+            else:
+                file_data = inputfile.readlines()
+        finally:
+            open_close_file_handler(logger, file_handler=inputfile, logger=logger)
         if not lines:
             return file_data
 
-- 
2.43.0

