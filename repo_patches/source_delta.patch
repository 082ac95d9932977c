From 63f4b5709adc4ab100c2762f3332e054b8e6d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 1/7] fix: elimination must not discard a contradictory
 equation 0 = b

Subtracting one equation from another can leave no unknowns and a nonzero
right-hand side. Such an equation was dropped like a redundant one, so rows
that do not satisfy the constraints were delivered as extensions.
---
 srg/gauss_elim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index d2b1726..1ce1c3c 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -6,6 +6,9 @@ from . import srg
 
 
 def _remove_zerokeys(h: list) -> None:
+    # an equation left without unknowns is redundant only if it reads 0 = 0
+    if any(k == 0 and v != 0 for k, i, v in h):
+        raise srg.NoSolution('no unknown left to equate a nonzero b')
     hnz = [(k, i, v) for k, i, v in h if k > 0]
     h.clear()
     h += hnz
-- 
2.43.0


From f2b2f21c7424f0c8ebe5a6fd3462a4da9145d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 2/7] fix: python -m srg.database imported a module that does
 not exist

---
 srg/database/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srg/database/__main__.py b/srg/database/__main__.py
index 445980e..c3b3916 100644
--- a/srg/database/__main__.py
+++ b/srg/database/__main__.py
@@ -1,5 +1,5 @@
 from srg.database import list_problems, get_solutions, draw
-from srg import util
+from srg import utils
 import sys
 from pprint import pprint
 
@@ -17,7 +17,7 @@ except ValueError:
 if v is None:
     pprint(list_problems())
 else:
-    util.assert_arg(v,k,l,u)
+    utils.assert_srg(v,k,l,u)
     if cmd == 'list':
         pprint(get_solutions(v,k,l,u))
     elif cmd == 'draw':
-- 
2.43.0


From 9c57d61c2cb933a850fd7ed9a6866607c299b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 3/7] fix: print answers of 32 vertices and more in full

numpy summarizes arrays of more than 1000 elements with '...'.
---
 srg/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/__main__.py b/srg/__main__.py
index aec011f..f45cc9f 100644
--- a/srg/__main__.py
+++ b/srg/__main__.py
@@ -6,10 +6,12 @@ from . import pprint
 from . import utils
 from . import solver
 from . import sorter
+import numpy as np
 import sys
 
 
 if __name__ == '__main__':
+    np.set_printoptions(threshold=sys.maxsize)  # print answers in full, whatever their size
     pprint.clear()
 
     v, k, l, u = map(int, sys.argv[1:])
-- 
2.43.0


From faf264eb48188321148d2dac624b572aed3055dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 4/7] fix: reject impossible parameters under python -O too

With assertions stripped, python -O -m srg 10 3 0 2 printed a graph that
does not have the requested parameters.
---
 srg/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srg/utils.py b/srg/utils.py
index 8370ccc..c107c80 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -29,7 +29,9 @@ def determinant(v: int, k: int, l: int, u: int):
     return int(round(prod))
 
 def assert_srg(v: int, k: int, l: int, u: int):
-    assert (v - k - 1) * u == k * (k - l - 1), f'{(v,k,l,u)} is not a strongly regular graph problem.'
+    # raised explicitly: python -O strips assert statements, and this checks user input
+    if (v - k - 1) * u != k * (k - l - 1):
+        raise AssertionError(f'{(v,k,l,u)} is not a strongly regular graph problem.')
 
 def complement_vklu(v: int, k: int, l: int, u: int):
     return v, v - k -1, v -2-2*k +u ,v -2*k +l
-- 
2.43.0


From 260310227f0b4466b83999c80797341b0f9f6f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 5/7] fix: get_solutions handed out the catalogue's own mutable
 arrays

A caller that edited its result changed what every later lookup returned.
---
 srg/database/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/database/__init__.py b/srg/database/__init__.py
index a8923b8..98a69f8 100644
--- a/srg/database/__init__.py
+++ b/srg/database/__init__.py
@@ -39,7 +39,7 @@ def get_solutions(v,k,l,u) -> list:
     import importlib
     name = __package__ + f'.problem_{v}_{k}_{l}_{u}'
     m = importlib.import_module(name)
-    return m.solutions
+    return [s.copy() for s in m.solutions]  # callers must not share the catalogue's own arrays
 
 
 def draw(v, k, l, u):
-- 
2.43.0


From 7806991a915da79c503da3c309d45a4615f4bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 6/7] fix: list_problems reported an empty catalogue when its
 directory could not be read

---
 srg/database/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srg/database/__init__.py b/srg/database/__init__.py
index 98a69f8..a621daf 100644
--- a/srg/database/__init__.py
+++ b/srg/database/__init__.py
@@ -27,9 +27,10 @@ problem_65_32_15_16 = (65, 32, 15, 16, [])
 '''
 
 def list_problems():
-    import pkgutil
-    problem_solutions = [m.name for m in pkgutil.iter_modules(__path__) if m.name.startswith('problem')]
-    return problem_solutions
+    import inspect, os
+    # pkgutil.iter_modules would take an unreadable directory for an empty one
+    names = {inspect.getmodulename(f) for path in __path__ for f in os.listdir(path)}
+    return sorted(n for n in names if n and n.startswith('problem'))
 
 def extract_vklu(problem : str):
     _, *vklu = problem.split('_')
-- 
2.43.0


From 05b9f702a318e795cc02e58831886320c16d4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 7/7] fix: a lookup that read a truncated problem file failed
 for good

---
 srg/database/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srg/database/__init__.py b/srg/database/__init__.py
index a621daf..1742a31 100644
--- a/srg/database/__init__.py
+++ b/srg/database/__init__.py
@@ -37,9 +37,11 @@ def extract_vklu(problem : str):
     return list(map(int, vklu))
 
 def get_solutions(v,k,l,u) -> list:
-    import importlib
+    import importlib, sys
     name = __package__ + f'.problem_{v}_{k}_{l}_{u}'
     m = importlib.import_module(name)
+    if not hasattr(m, 'solutions'):
+        sys.modules.pop(name, None)  # the file was cut short: let the next lookup read it again
     return [s.copy() for s in m.solutions]  # callers must not share the catalogue's own arrays
 
 
-- 
2.43.0

