From f11eb0ff8fab941ad3c49dfb3e84e9ea6d1a7a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 01/65] fix: merge all overlapping ranges in Intervals

---
 kerncraft/intervals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/intervals.py b/kerncraft/intervals.py
index a2f77ee..7e73ee7 100755
--- a/kerncraft/intervals.py
+++ b/kerncraft/intervals.py
@@ -29,7 +29,9 @@ class Intervals(object):
 
                 # removed contained range
                 del self.data[i+1]
-            i += 1
+            else:
+                # i-th range may also overlap with the one following the removed range
+                i += 1
 
     def __and__(self, other):
         """Combine two intervals, under the assumption that they are sane."""
-- 
2.43.0


From 976b3f0ded00960a2767955844c62d0c245cf536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 02/65] fix: do not modify the ranges of other Intervals
 objects when merging

---
 kerncraft/intervals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/intervals.py b/kerncraft/intervals.py
index 7e73ee7..3cd6ce3 100755
--- a/kerncraft/intervals.py
+++ b/kerncraft/intervals.py
@@ -7,7 +7,8 @@ class Intervals(object):
 
     def __init__(self, *args, **kwargs):
         """If keywords *sane* is True (default: False), checks will not be done on given data."""
-        self.data = list(args)
+        # copy ranges, because they are modified when overlaps are merged
+        self.data = [list(d) for d in args]
         if not kwargs.get('sane', False):
             self.data = [d for d in self.data if d[1] > d[0]]
             self._enforce_order()
-- 
2.43.0


From efb49f8998aa41f40d8b56143f7cafcf8419b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 03/65] fix: translate global iterations to loop indices
 exactly and with loop increments

---
 kerncraft/kernel.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 2baa796..eb8ba19 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -37,7 +37,7 @@ from . import kerncraft
 from . import incore_model
 from .pycparser_utils import clean_code, replace_id
 
-from kerncraft.symbolic.utils import int_ceil
+from kerncraft.symbolic.utils import int_ceil, int_floor
 
 @contextmanager
 def set_recursionlimit(new_limit):
@@ -479,20 +479,19 @@ class Kernel(object):
         base_loop_counters = {}
         global_iterator = symbol_pos_int('global_iterator')
         total_length = 1
-        last_incr = 1
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
 
             # This unspools the iterations:
             length = int_ceil((end-start), incr)
-            counter = start+(((global_iterator*last_incr) // total_length)*incr) % length
+            counter = start+(int_floor(global_iterator, total_length) % length)*incr
             total_length = total_length*length
-            last_incr = incr
 
+            # int_floor must stay an integer operation, floating-point is not exact
             base_loop_counters[loop_var] = sympy.lambdify(
                 global_iterator,
                 self.subs_consts(counter),
-                modules='numpy')
+                modules=[{'int_floor': operator.floordiv}, 'numpy'])
 
             if git is not None:
                 try:  # Try to resolve to integer if global_iterator was given
@@ -513,7 +512,7 @@ class Kernel(object):
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
             length = int_ceil((end-start), incr)
-            global_iterator += (loop_var - start) * total_length
+            global_iterator += int_floor(loop_var - start, incr) * total_length
             total_length *= length
         return global_iterator
 
-- 
2.43.0


From d47f7d1ef1a6569bef8770c8bbd0d1374fa2d71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 04/65] fix: forget substituted expressions when a constant is
 redefined

---
 kerncraft/kernel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index eb8ba19..407f5e3 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -262,6 +262,8 @@ class Kernel(object):
         # Ensure constants will always be sorted by keys
         self.constants = collections.OrderedDict(
             sorted(self.constants.items(), key=lambda i: str(i[0])))
+        # Expressions need to be substituted with the new value from now on
+        self.subs_consts.cache_clear()
 
     def set_variable(self, name, type_, size):
         """
-- 
2.43.0


From d5cba467cb4e0d25cacfb026dd785f10daf777dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 05/65] fix: correct the magnitudes of the tera, peta and exa
 prefixes

---
 kerncraft/prefixedunit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index 8268a30..ac5f7e9 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -5,7 +5,7 @@ import ruamel.yaml
 
 
 class PrefixedUnit(ruamel.yaml.YAMLObject):
-    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e13, 'P': 1e16, 'E': 1e19, 'Z': 1e21, 'Y': 1e24,
+    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e12, 'P': 1e15, 'E': 1e18, 'Z': 1e21, 'Y': 1e24,
                 '': 1}
 
 
-- 
2.43.0


From 3e3d6f7d3c6b2311081322a7d6eaabc5f950ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 06/65] fix: keep the unit of results of arithmetic on
 PrefixedUnit as it is

---
 kerncraft/prefixedunit.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index ac5f7e9..e778c63 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -114,7 +114,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)*float(other), unit)
+        v = self.__class__(float(self)*float(other), '', unit)
         return v.reduced()
 
     def __truediv__(self, other):
@@ -123,7 +123,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)/float(other), unit)
+        v = self.__class__(float(self)/float(other), '', unit)
         return v.reduced()
 
     __div__ = __truediv__
@@ -134,7 +134,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)//float(other), unit)
+        v = self.__class__(float(self)//float(other), '', unit)
         return v.reduced()
 
     def __sub__(self, other):
@@ -146,11 +146,11 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for subtraction.")
 
-        v = self.__class__(float(self)-float(other), unit)
+        v = self.__class__(float(self)-float(other), '', unit)
         return v.reduced()
 
     def __abs__(self):
-        v = self.__class__(abs(float(self)), self.unit)
+        v = self.__class__(abs(float(self)), '', self.unit)
         return v.reduced()
 
     def __add__(self, other):
@@ -162,7 +162,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for addition.")
 
-        v = self.__class__(float(self) + float(other), self.unit)
+        v = self.__class__(float(self) + float(other), '', self.unit)
         return v.reduced()
 
     def __mod__(self, other):
@@ -174,7 +174,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for modulo.")
 
-        v = self.__class__(float(self) % float(other), self.unit)
+        v = self.__class__(float(self) % float(other), '', self.unit)
         return v.reduced()
 
     def __lt__(self, other):
-- 
2.43.0


From f00cbd1673d67a1ed810542aa67d379673f53d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 07/65] fix: compile global offsets of loops with a single
 iteration

---
 kerncraft/kernel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 407f5e3..23646b2 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -618,8 +618,9 @@ class Kernel(object):
                 global_store_offsets.append(offset)
                 # TODO take element sizes into account, return in bytes
 
-        # Generate numpy.array for each counter
-        counter_per_it = [v(iteration) for v in base_loop_counters.values()]
+        # Generate numpy.array for each counter (also if it is the same in all iterations)
+        counter_per_it = [numpy.broadcast_to(v(iteration), iteration.shape)
+                          for v in base_loop_counters.values()]
 
         # Old and slow - left for reference
         ## Data access as they appear with iteration order
-- 
2.43.0


From 52c8ca0d68aef3be479c9136de6c10d7682b55b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 08/65] fix: count increments and decrements as one operation

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 23646b2..673d9ce 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1148,7 +1148,7 @@ class KernelCode(Kernel):
             self._flops[stmt.op] = self._flops.get(stmt.op, 0)+1
         elif type(stmt) is c_ast.UnaryOp:
             self._p_sources(stmt.expr)
-            self._flops[stmt.op] = self._flops.get(stmt.op[-1], 0)+1
+            self._flops[stmt.op[-1]] = self._flops.get(stmt.op[-1], 0)+1
 
         return sources
 
-- 
2.43.0


From 39e810bb5a87e01701c45358f48a4fe08b29396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 09/65] fix: share the loop nest between threads also if it has
 other omp pragmas

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 673d9ce..8fd7cd4 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1225,7 +1225,7 @@ class KernelCode(Kernel):
         for op in omp_pragmas:
             op.string = op.string.replace(' parallel', '')
         # if no omp for pragmas are present, insert suitable one at start of outer loop
-        if not omp_pragmas:
+        if not any(re.search(r'\bfor\b', p.string) for p in omp_pragmas):
             loop_nest.insert(0, c_ast.Pragma("omp for"))
 
         return loop_nest
-- 
2.43.0


From 01fa852b91e5a16087b689df6165ca47a71cfca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:50 +0000
Subject: [PATCH 10/65] fix: end cache warm-up if it reaches exactly the last
 iteration

---
 kerncraft/cacheprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 0d7c517..13df49c 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -570,7 +570,7 @@ class CacheSimulationPredictor(CachePredictor):
         while invalid_entries > 0 and step < max_steps and not complete_sweep:
             prev_warmup_iteration = warmup_iteration
             warmup_iteration = warmup_iteration + warmup_increment
-            if warmup_iteration > max_iterations:
+            if warmup_iteration >= max_iterations:
                 warmup_iteration = max_iterations
                 complete_sweep = True
 
-- 
2.43.0


From c17a1a7ad23a986466ec55a4037a81e288e22b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 11/65] fix: build a cache simulator for the requested number
 of cores

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 173ae58..b394839 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -422,7 +422,7 @@ class MachineModel(object):
 
         :param cores: core count (default: 1)
         """
-        if hasattr(self, '_cachesimulator'):
+        if getattr(self, '_cachesimulator_cores', None) == cores:
             self._cachesimulator.mark_all_invalid()
             self._cachesimulator.reset_stats()
         else:
@@ -438,6 +438,7 @@ class MachineModel(object):
                     cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
 
             self._cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
+            self._cachesimulator_cores = cores
 
         return self._cachesimulator
 
-- 
2.43.0


From 5c6d513a4e6dcd46498b90be90b77bc2ba6704ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 12/65] fix: identifier of machine models that were not read
 from a file

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index b394839..604d417 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -406,7 +406,7 @@ class MachineModel(object):
         if self._path:
             return os.path.basename(self._path)
         else:
-            return hashlib.sha256(hashlib.sha256(repr(self._data).encode())).hexdigest()
+            return hashlib.sha256(repr(self._data).encode()).hexdigest()
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
-- 
2.43.0


From 630535d8f3413338bc6c44aacb038d9bead0a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 13/65] fix: cycles per iteration are cycles per cacheline
 divided by iterations

---
 kerncraft/models/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 663b9b6..20c3486 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -362,7 +362,7 @@ class ECMCPU(PerformanceModel):
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl*elements_per_cacheline
+        cy_it = cy_cl/elements_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
-- 
2.43.0


From 9603c9e20ed17bbdb815971069e8835befbe7e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 14/65] fix: convert model units with the iterations that a
 cacheline takes

---
 kerncraft/models/ecm.py      | 16 ++++++++--------
 kerncraft/models/roofline.py | 12 +++++++-----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 20c3486..301a582 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -177,17 +177,17 @@ class ECMData(PerformanceModel):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
 
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = \
+            float(self.machine['cacheline size']) / float(self.kernel.bytes_per_iteration)
         if cy_cl != 0:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
             it_s.unit = 'It/s'
         else:
             it_s = PrefixedUnit('inf It/S')
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl/elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
@@ -352,17 +352,17 @@ class ECMCPU(PerformanceModel):
         if not isinstance(cy_cl, PrefixedUnit):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = \
+            float(self.machine['cacheline size']) / float(self.kernel.bytes_per_iteration)
         if cy_cl == 0.0:
             it_s = PrefixedUnit(float('inf'))
         else:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
         it_s.unit = 'It/s'
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl/elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 91ab6a9..b7e2f1c 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -67,6 +67,7 @@ class RooflineFLOP(PerformanceModel):
         element_size = self.kernel.datatypes_size[self.kernel.datatype]
         cacheline_size = float(self.machine['cacheline size'])
         elements_per_cacheline = int(cacheline_size // element_size)
+        iterations_per_cacheline = cacheline_size / float(self.kernel.bytes_per_iteration)
 
         total_flops = sum(self.kernel._flops.values())*elements_per_cacheline
 
@@ -140,7 +141,7 @@ class RooflineFLOP(PerformanceModel):
                 arith_intens = float('inf')
                 it_s = PrefixedUnit(float('inf'), 'It/s')
             else:
-                arith_intens = 1/(bytes_transfered/elements_per_cacheline)
+                arith_intens = 1/(bytes_transfered/iterations_per_cacheline)
                 it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
 
             self.results['mem bottlenecks'].append({
@@ -170,9 +171,9 @@ class RooflineFLOP(PerformanceModel):
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(float(self.machine['cacheline size'])) / element_size
-        cy_cl = clock/it_s*elements_per_cacheline
+        iterations_per_cacheline = \
+            float(self.machine['cacheline size']) / float(self.kernel.bytes_per_iteration)
+        cy_cl = clock/it_s*iterations_per_cacheline
         cy_cl.unit = 'cy/CL'
         cy_it = clock/it_s
         cy_it.unit = 'cy/It'
@@ -300,6 +301,7 @@ class RooflineASM(RooflineFLOP):
         # Normalize to cycles per cacheline
         elements_per_block = abs(
             pointer_increment / self.kernel.datatypes_size[self.kernel.datatype])
+        iterations_per_block = abs(pointer_increment / float(self.kernel.bytes_per_iteration))
         block_size = elements_per_block*self.kernel.datatypes_size[self.kernel.datatype]
         try:
             block_to_cl_ratio = float(self.machine['cacheline size'])/block_size
@@ -334,7 +336,7 @@ class RooflineASM(RooflineFLOP):
                 'cl throughput': cl_throughput,
                 'uops': uops,
                 'performance throughput': self.conv_perf(PrefixedUnit(
-                    self.machine['clock']/block_throughput*elements_per_block
+                    self.machine['clock']/block_throughput*iterations_per_block
                     * self.cores, "It/s")),
                 'in-core model output': incore_output}})
 
-- 
2.43.0


From a15d1ab81c15e7a51bb76f8aefbb0c5c697a3dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 15/65] fix: peak performance of the roofline model is limited
 by the FLOP/s of the datatype

---
 kerncraft/models/roofline.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index b7e2f1c..a7b1ddb 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -159,11 +159,14 @@ class RooflineFLOP(PerformanceModel):
 
     def analyze(self):
         """Run analysis."""
-        precision = 'DP' if self.kernel.datatype == 'double' else 'SP'
+        precision = 'DP' if 'double' in self.kernel.datatype else 'SP'
         self.calculate_cache_access()
 
-        self.results['max_perf'] = self.conv_perf(self.machine['clock'] * self.cores * \
-            self.machine['FLOPs per cycle'][precision]['total'])
+        max_flops = float(self.machine['clock']) * self.cores * \
+            self.machine['FLOPs per cycle'][precision]['total']
+        flops_per_it = sum(self.kernel._flops.values())
+        self.results['max_perf'] = self.conv_perf(PrefixedUnit(
+            max_flops / flops_per_it if flops_per_it else float('inf'), 'It/s'))
 
     def conv_perf(self, it_s):
         """Convert performance (It/s) to other units, such as FLOP/s or cy/CL."""
-- 
2.43.0


From dbdf52983a56c49ed75d6b667e504dceca2dd83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 16/65] fix: report zero FLOP/s and It/s also with unlimited
 performance

---
 kerncraft/models/ecm.py      | 6 +++---
 kerncraft/models/roofline.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 301a582..a2b66f4 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -183,9 +183,9 @@ class ECMData(PerformanceModel):
             it_s = clock/cy_cl*iterations_per_cacheline
             it_s.unit = 'It/s'
         else:
-            it_s = PrefixedUnit('inf It/S')
+            it_s = PrefixedUnit('inf It/s')
         flops_per_it = sum(self.kernel._flops.values())
-        performance = it_s*flops_per_it
+        performance = it_s*flops_per_it if flops_per_it else PrefixedUnit('0 FLOP/s')
         performance.unit = 'FLOP/s'
         cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
@@ -360,7 +360,7 @@ class ECMCPU(PerformanceModel):
             it_s = clock/cy_cl*iterations_per_cacheline
         it_s.unit = 'It/s'
         flops_per_it = sum(self.kernel._flops.values())
-        performance = it_s*flops_per_it
+        performance = it_s*flops_per_it if flops_per_it else PrefixedUnit('0 FLOP/s')
         performance.unit = 'FLOP/s'
         cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index a7b1ddb..5cd5380 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -172,7 +172,7 @@ class RooflineFLOP(PerformanceModel):
         """Convert performance (It/s) to other units, such as FLOP/s or cy/CL."""
         clock = self.machine['clock']
         flops_per_it = sum(self.kernel._flops.values())
-        performance = it_s*flops_per_it
+        performance = it_s*flops_per_it if flops_per_it else PrefixedUnit('0 FLOP/s')
         performance.unit = 'FLOP/s'
         iterations_per_cacheline = \
             float(self.machine['cacheline size']) / float(self.kernel.bytes_per_iteration)
-- 
2.43.0


From d4876f694a37adfafc5f24240e62d6562ccd9e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 17/65] fix: analyze ECM and Roofline models that were created
 without parsed arguments

---
 kerncraft/models/ecm.py      | 13 ++++++++-----
 kerncraft/models/roofline.py |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index a2b66f4..307dbfe 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -296,7 +296,7 @@ class ECMCPU(PerformanceModel):
             incore_analysis, pointer_increment = self.kernel.incore_analysis(
                 asm_block=self.asm_block,
                 pointer_increment=self.pointer_increment,
-                model=self._args.incore_model,
+                model=self._args.incore_model if self._args else None,
                 verbose=self.verbose > 2)
         except RuntimeError as e:
             print("In-core analysis failed: " + str(e))
@@ -322,7 +322,8 @@ class ECMCPU(PerformanceModel):
         cl_throughput = block_throughput*block_to_cl_ratio
 
         # Compile most relevant information
-        incore_model = self.machine.get_incore_model(self._args.incore_model)
+        incore_model = self.machine.get_incore_model(
+            self._args.incore_model if self._args else None)
         T_comp = float(max([v for k, v in list(port_cycles.items())
                             if k in self.machine['overlapping model']['ports'][incore_model]] +
                            [0]))
@@ -429,16 +430,18 @@ class ECM(PerformanceModel):
         self.kernel = kernel
         self.machine = machine
         self._args = args
+        self.cores = cores
         self.verbose = verbose
         self.results = None
 
         if args:
+            self.cores = self._args.cores
             self.verbose = self._args.verbose
 
         self._CPU = ECMCPU(kernel, machine, args, parser, asm_block=asm_block,
                            pointer_increment=pointer_increment, verbose=verbose)
         self._data = ECMData(kernel, machine, args, parser,
-                             cache_predictor=CacheSimulationPredictor, cores=cores, verbose=verbose)
+                             cache_predictor=cache_predictor, cores=cores, verbose=verbose)
 
     def analyze(self):
         """Run complete analysis."""
@@ -559,8 +562,8 @@ class ECM(PerformanceModel):
 
         # Also include prediction for all in-NUMA core counts in results
         self.results['scaling prediction'] = scaling_predictions
-        if self._args.cores:
-            self.results['multi-core'] = scaling_predictions[self._args.cores - 1]
+        if self.cores:
+            self.results['multi-core'] = scaling_predictions[self.cores - 1]
         else:
             self.results['multi-core'] = None
 
diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 5cd5380..2b13299 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -290,7 +290,7 @@ class RooflineASM(RooflineFLOP):
             incore_analysis, pointer_increment = self.kernel.incore_analysis(
                 asm_block=self.asm_block,
                 pointer_increment=self.pointer_increment,
-                model=self._args.incore_model,
+                model=self._args.incore_model if self._args else None,
                 verbose=self.verbose > 2)
         except RuntimeError as e:
             print("In-core analysis failed: " + str(e))
-- 
2.43.0


From 2591ad7f490e0e772402ef82752eb6ca0a22bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 18/65] fix: print CPU bound of the roofline model in the unit
 asked for

---
 kerncraft/models/roofline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 2b13299..5bbc854 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -212,7 +212,8 @@ class RooflineFLOP(PerformanceModel):
 
         if self.results['min performance']['FLOP/s'] > max_perf['FLOP/s']:
             # CPU bound
-            print('CPU bound. {!s} due to CPU max. FLOP/s'.format(max_perf), file=output_file)
+            print('CPU bound. {!s} due to CPU max. FLOP/s'.format(
+                max_perf[self._args.unit]), file=output_file)
         else:
             # Cache or mem bound
             print('Cache or mem bound.', file=output_file)
-- 
2.43.0


From 2898dda5c2c4f366e6d5b9142c738a3549e42893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 19/65] fix: name the cache level in the error about its
 duplexness

---
 kerncraft/models/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 307dbfe..098f89c 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -154,7 +154,7 @@ class ECMData(PerformanceModel):
                 else:
                     raise ValueError("Duplexness of cache throughput may only be 'half-duplex'"
                                      "or 'full-duplex', found {} in {}.".format(
-                        duplexness, cache_info['name']))
+                        duplexness, cache_info['level']))
 
             self.results['cycles'].append((cache_info['level'], cycles))
             self.results['penalty'] = penalty
-- 
2.43.0


From 76cf8c3a1e7d65d11c912324292eefc3a94e7ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:30 +0000
Subject: [PATCH 20/65] fix: convert quantities with integer values to float

---
 kerncraft/prefixedunit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index e778c63..bf37bb8 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -50,7 +50,8 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         """gives value without prefix"""
         return self.value*self.PREFIXES[self.prefix]
 
-    __float__ = base_value
+    def __float__(self):
+        return float(self.base_value())
 
     def __int__(self):
         return int(self.base_value())
-- 
2.43.0


From 75aed06e5036ef66e08fccabe42f8f28ca8f3faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:41 +0000
Subject: [PATCH 21/65] fix: machine models that are not files were last
 modified now, in UTC

The time is compared to times in UTC; with local time west of UTC, intermediates of the last hours,
made with another machine model, were taken for up-to-date.
---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 604d417..4d4e548 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -414,7 +414,7 @@ class MachineModel(object):
             statbuf = os.stat(self._path)
             return datetime.utcfromtimestamp(statbuf.st_mtime)
         else:
-            return datetime.now()
+            return datetime.utcnow()
 
     def get_cachesim(self, cores=1):
         """
-- 
2.43.0


From 0c3abd1a7808be2baadea29768830530fb8d2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:41 +0000
Subject: [PATCH 22/65] fix: do not pass empty arguments to the compiler

A compiler without flags (or flags separated by several blanks) got empty arguments, which gcc takes
for names of missing files.
---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 4d4e548..4057724 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -533,7 +533,7 @@ class MachineModel(object):
             # Select from machine description file
             flags = self['compiler'].get(compiler, '')
 
-        return compiler, flags.split(' ')
+        return compiler, flags.split()
     
     def get_incore_model(self, model=None):
         """
-- 
2.43.0


From be4230794ee7fbbe22eaf20554acb25faaee6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:41 +0000
Subject: [PATCH 23/65] fix: keep cache predictions of different machines apart

Stored layer conditions and cache simulations depend on the machine, but were reused with any.
---
 kerncraft/cacheprediction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 13df49c..7d6cf36 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -264,7 +264,8 @@ class LayerConditionPredictor(CachePredictor):
             # Make use of caching for symbolic LC representation:
             file_name = 'LC_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
-                file_name, machine_and_compiler_dependent=False, other_dependencies=[str(cores)])
+                file_name, machine_and_compiler_dependent=False,
+                other_dependencies=[machine.get_identifier(), str(cores)])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
@@ -517,7 +518,8 @@ class CacheSimulationPredictor(CachePredictor):
             file_name = 'CSIM_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
                 file_name, machine_and_compiler_dependent=False,
-                other_dependencies=[str(cores)]+[str(t) for t in self.kernel.constants.items()])
+                other_dependencies=[machine.get_identifier(), str(cores)] +
+                                   [str(t) for t in self.kernel.constants.items()])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
-- 
2.43.0


From 60961afb74897bcfd866fef14108c4cd2e9e6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:41 +0000
Subject: [PATCH 24/65] fix: keep in-core analyses of different blocks and
 pointer increments apart

A stored analysis (and the marked object file) was reused with any assembly block and pointer
increment asked for.
---
 kerncraft/kernel.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 8fd7cd4..2cf17a6 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1580,7 +1580,7 @@ class KernelCode(Kernel):
         return file_path, lock_fp
 
 
-    def assemble_to_object(self, in_filename, verbose=False):
+    def assemble_to_object(self, in_filename, verbose=False, other_dependencies=[]):
         """
         Assemble *in_filename* assembly into *out_filename* object.
 
@@ -1588,7 +1588,8 @@ class KernelCode(Kernel):
         """
         # Build file name
         file_base_name = os.path.splitext(os.path.basename(in_filename))[0]
-        out_filename = self.get_intermediate_location(file_base_name + '.o')
+        out_filename = self.get_intermediate_location(
+            file_base_name + '.o', other_dependencies=other_dependencies)
         lock_mode, lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1700,8 +1701,9 @@ class KernelCode(Kernel):
         model = self._machine.get_incore_model(model)
         model_parameter = self._machine['in-core model'][model]
 
+        marker_dependencies = [asm_block, pointer_increment]
         analysis_filename = self.get_intermediate_location('incore_analysis.pickle.lzma',
-            other_dependencies=[model, str(model_parameter)])
+            other_dependencies=[model, str(model_parameter)] + marker_dependencies)
         analysis_lock_mode, analysis_lock_fp = self.lock_intermediate(analysis_filename)
         if analysis_lock_mode == fcntl.LOCK_SH:
             # use cached analysis
@@ -1710,7 +1712,7 @@ class KernelCode(Kernel):
             return analysis, self.pointer_increment
         
         marked_filename = self.get_intermediate_location('kernel-marked.s',
-            other_dependencies=[asm_block, pointer_increment])
+            other_dependencies=marker_dependencies)
         lock_mode, marked_lock_fp = self.lock_intermediate(marked_filename)
         if lock_mode == fcntl.LOCK_SH:
             # use cached maked assembly and extract asm_block and pointer_increment
@@ -1743,7 +1745,8 @@ class KernelCode(Kernel):
             analysis = incore_model.llvm_mca_analyse_instrumented_assembly(
                 marked_filename, model_parameter, isa=self._machine['isa'])
         elif model == 'IACA':
-            obj_name, obj_lock_fp = self.assemble_to_object(marked_filename, verbose=verbose)
+            obj_name, obj_lock_fp = self.assemble_to_object(
+                marked_filename, verbose=verbose, other_dependencies=marker_dependencies)
             analysis = incore_model.iaca_analyse_instrumented_binary(obj_name, model_parameter)
             obj_lock_fp.close()
         else:
-- 
2.43.0


From 74234a85c9f2b9d1334324a8e6adb6e9d2f1b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:59 +0000
Subject: [PATCH 25/65] fix: read negative pointer increments from marked
 assembly

With an intermediate of an earlier run, loops running backwards were refused (and the file removed).
---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 2cf17a6..67e1fd0 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1718,7 +1718,7 @@ class KernelCode(Kernel):
             # use cached maked assembly and extract asm_block and pointer_increment
             with open(marked_filename) as f:
                 marked_asm = f.read()
-            m = re.search(r'pointer_increment=([0-9]+)', marked_asm)
+            m = re.search(r'pointer_increment=(-?[0-9]+)', marked_asm)
             if m:
                 self.pointer_increment = int(m.group(1))
             else:
-- 
2.43.0


From 70344c8b46606e5ec677414a6b64e876f1e6663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 26/65] fix: keep benchmark code of machines with other
 cacheline sizes apart

The alignment of arrays in main.c is the cacheline size, but a main.c made for any machine was reused.
---
 kerncraft/kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 67e1fd0..201a9af 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1526,7 +1526,10 @@ class KernelCode(Kernel):
         assert self.kernel_ast is not None, "AST does not exist, this could be due to running " \
                                             "based on a kernel description rather than code."
 
-        file_path = self.get_intermediate_location('main.c', machine_and_compiler_dependent=False)
+        # alignment of arrays depends on the size of cachelines
+        file_path = self.get_intermediate_location(
+            'main-{}.c'.format(int(self._machine['cacheline size'])),
+            machine_and_compiler_dependent=False)
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
-- 
2.43.0


From ef609efb617bef1d4d65d1b6dcd82ee7bcaf7e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 27/65] fix: interrupted runs leave no incomplete intermediates

An intermediate file that was being written when kerncraft was interrupted or failed (e.g., because no
pointer increment was found) was newer than its sources and thus used by all later runs.
---
 kerncraft/cacheprediction.py |  12 ++--
 kerncraft/kernel.py          | 114 +++++++++++++++++++++--------------
 2 files changed, 75 insertions(+), 51 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 7d6cf36..645cb14 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -10,7 +10,7 @@ import sympy
 from sympy.logic.boolalg import BooleanTrue, BooleanFalse
 import numpy as np
 
-from kerncraft.kernel import symbol_pos_int, KernelCode
+from kerncraft.kernel import symbol_pos_int, KernelCode, replace_when_complete
 from collections import defaultdict
 import operator
 from io import StringIO
@@ -274,7 +274,8 @@ class LayerConditionPredictor(CachePredictor):
             else:  # lock_mode == fcntl.LOCK_EX
                 # needs update
                 self.build_symbolic_LCs()
-                compress_pickle.dump(self.results, file_path)
+                with replace_when_complete(file_path) as new_path:
+                    compress_pickle.dump(self.results, new_path)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
@@ -531,9 +532,10 @@ class CacheSimulationPredictor(CachePredictor):
             else:  # lock_mode == fcntl.LOCK_EX
                 # needs update
                 self.simulate()
-                compress_pickle.dump(
-                    {'first_dim_factor': self.first_dim_factor, 'stats': self.stats, 'pretty_stats': self.pretty_stats},
-                    file_path)
+                with replace_when_complete(file_path) as new_path:
+                    compress_pickle.dump(
+                        {'first_dim_factor': self.first_dim_factor, 'stats': self.stats, 'pretty_stats': self.pretty_stats},
+                        new_path)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 201a9af..7b6b16c 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -215,6 +215,22 @@ def reduce_path(path):
         return path
 
 
+@contextmanager
+def replace_when_complete(file_path):
+    """
+    Yield a path to write to, which becomes *file_path* only if the context was left without error.
+
+    Thus an interrupted run leaves no incomplete file, which would be taken for up-to-date.
+    """
+    temp_path = os.path.join(os.path.dirname(file_path), 'new-' + os.path.basename(file_path))
+    try:
+        yield temp_path
+        os.replace(temp_path, file_path)
+    finally:
+        if os.path.exists(temp_path):
+            os.unlink(temp_path)
+
+
 class Kernel(object):
     """Kernel information with functions to analyze and report access patterns."""
 
@@ -1385,7 +1401,7 @@ class KernelCode(Kernel):
             func_decl = self._build_kernel_function_declaration(name=name)
             code = CGenerator().visit(
                 c_ast.FileAST(ext=[func_decl]))
-            with open(file_path, 'w') as f:
+            with replace_when_complete(file_path) as new_path, open(new_path, 'w') as f:
                 f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
@@ -1453,7 +1469,7 @@ class KernelCode(Kernel):
                 code = re.sub('#pragma omp[^\n]*\n', '', code)
 
             # Store to file
-            with open(file_path, 'w') as f:
+            with replace_when_complete(file_path) as new_path, open(new_path, 'w') as f:
                 f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
@@ -1576,7 +1592,7 @@ class KernelCode(Kernel):
                    '\n\n' + code
 
             # Store to file
-            with open(file_path, 'w') as f:
+            with replace_when_complete(file_path) as new_path, open(new_path, 'w') as f:
                 f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
@@ -1605,14 +1621,15 @@ class KernelCode(Kernel):
             # Compile to object file
             compiler_args.append('-c')
 
-            cmd = [compiler] + [in_filename] + compiler_args + ['-o', out_filename]
+            try:
+                with replace_when_complete(out_filename) as new_filename:
+                    cmd = [compiler] + [in_filename] + compiler_args + ['-o', new_filename]
 
-            if verbose:
-                print('Executing (assemble_to_object): ', ' '.join(cmd))
+                    if verbose:
+                        print('Executing (assemble_to_object): ', ' '.join(cmd))
 
-            try:
-                # Assemble all to a binary
-                subprocess.check_output(cmd)
+                    # Assemble all to a binary
+                    subprocess.check_output(cmd)
                 self.release_exclusive_lock(lock_fp)  # degrade to shared lock
             except subprocess.CalledProcessError as e:
                 print("Assembly failed:", e, file=sys.stderr)
@@ -1649,36 +1666,37 @@ class KernelCode(Kernel):
 
             header_filename, header_lock_fp = self.get_kernel_header()
             in_filename, in_lock_fp = self.get_kernel_code(openmp=openmp)
-            cmd = ([compiler] +
-                   [in_filename,
-                    '-c',
-                    '-I'+reduce_path(os.path.abspath(os.path.dirname(
-                        os.path.realpath(__file__)))+'/headers/'),
-                    '-o', out_filename] +
-                   compiler_args)
-
-            if verbose:
-                print('Executing (compile_kernel): ', ' '.join(cmd))
-
-            try:
-                subprocess.check_output(cmd)
-                in_lock_fp.close()
-                header_lock_fp.close()
+            with replace_when_complete(out_filename) as new_filename:
+                cmd = ([compiler] +
+                       [in_filename,
+                        '-c',
+                        '-I'+reduce_path(os.path.abspath(os.path.dirname(
+                            os.path.realpath(__file__)))+'/headers/'),
+                        '-o', new_filename] +
+                       compiler_args)
+
+                if verbose:
+                    print('Executing (compile_kernel): ', ' '.join(cmd))
 
-            except subprocess.CalledProcessError as e:
-                print("Compilation failed:", e, file=sys.stderr)
-                sys.exit(1)
-
-            # FIXME TODO FIXME TODO FIXME TODO
-            # Hacky workaround for icc issue (icc may issue vkmovb instructions with AVX512, which 
-            # are invalid and should be kmovb):
-            if compiler == 'icc' and assembly:
-                with open(out_filename, 'r+') as f:
-                    assembly = f.read()
-                    f.seek(0)
-                    f.write(assembly.replace('vkmovb', 'kmovb'))
-                    f.truncate()
-            # FIXME TODO FIXME TODO FIXME TODO
+                try:
+                    subprocess.check_output(cmd)
+                    in_lock_fp.close()
+                    header_lock_fp.close()
+
+                except subprocess.CalledProcessError as e:
+                    print("Compilation failed:", e, file=sys.stderr)
+                    sys.exit(1)
+
+                # FIXME TODO FIXME TODO FIXME TODO
+                # Hacky workaround for icc issue (icc may issue vkmovb instructions with AVX512,
+                # which are invalid and should be kmovb):
+                if compiler == 'icc' and assembly:
+                    with open(new_filename, 'r+') as f:
+                        assembly = f.read()
+                        f.seek(0)
+                        f.write(assembly.replace('vkmovb', 'kmovb'))
+                        f.truncate()
+                # FIXME TODO FIXME TODO FIXME TODO
 
             self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
 
@@ -1732,7 +1750,9 @@ class KernelCode(Kernel):
         else:  # analysis_lock_mode == fcntl.LOCK_EX
             # marked assembly needs update
             asm_filename, asm_lock_fp = self.compile_kernel(assembly=True, verbose=verbose)
-            with open(asm_filename, 'r') as in_file, open(marked_filename, 'w') as out_file:
+            with open(asm_filename, 'r') as in_file, \
+                    replace_when_complete(marked_filename) as new_filename, \
+                    open(new_filename, 'w') as out_file:
                 asm_block, self.pointer_increment = incore_model.asm_instrumentation(
                     in_file, out_file,
                     block_selection=asm_block,
@@ -1754,7 +1774,8 @@ class KernelCode(Kernel):
             obj_lock_fp.close()
         else:
             raise ValueError("Unknown micro-architecture model: {!r}".format(model))
-        compress_pickle.dump((analysis, self.pointer_increment), analysis_filename)
+        with replace_when_complete(analysis_filename) as new_filename:
+            compress_pickle.dump((analysis, self.pointer_increment), new_filename)
         analysis_lock_fp.close()
         marked_lock_fp.close()
         return analysis, self.pointer_increment
@@ -1807,13 +1828,14 @@ class KernelCode(Kernel):
                 os.path.realpath(__file__)))+'/headers/dummy.c'),
                        kernel_obj_filename, main_filename]
 
-            cmd = [compiler] + infiles + compiler_args + ['-o', out_filename]
-            # remove empty arguments
-            cmd = list(filter(bool, cmd))
-            if verbose:
-                print('Executing (build_executable): ', ' '.join(cmd))
             try:
-                subprocess.check_output(cmd)
+                with replace_when_complete(out_filename) as new_filename:
+                    cmd = [compiler] + infiles + compiler_args + ['-o', new_filename]
+                    # remove empty arguments
+                    cmd = list(filter(bool, cmd))
+                    if verbose:
+                        print('Executing (build_executable): ', ' '.join(cmd))
+                    subprocess.check_output(cmd)
                 main_lock_fp.close()
                 kernel_obj_lock_fp.close()
                 self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
-- 
2.43.0


From b22a40daa26dcd597dd1676da7508c806ed01b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:18 +0000
Subject: [PATCH 28/65] fix: tell machine files of the same name apart

Intermediates made with a machine file were reused with other ones of the same name, e.g. another
version of it in a different directory.
---
 kerncraft/machinemodel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 4057724..011bf8d 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -402,11 +402,12 @@ class MachineModel(object):
         )
 
     def get_identifier(self):
-        """Return identifier which is either the machine file name or sha256 checksum of data."""
+        """Return identifier made of the machine file name (if any) and sha256 checksum of data."""
+        checksum = hashlib.sha256(repr(self._data).encode()).hexdigest()
         if self._path:
-            return os.path.basename(self._path)
+            return '{}-{}'.format(os.path.basename(self._path), checksum[:16])
         else:
-            return hashlib.sha256(repr(self._data).encode()).hexdigest()
+            return checksum
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
-- 
2.43.0


From 3828ad4e9a768f8c015cd177132e87d2843a0a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 29/65] fix: detect the distance that addresses of x86 blocks
 really move by

---
 kerncraft/incore_model.py | 111 +++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 68 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 80ed27e..ee91d81 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -156,98 +156,73 @@ class x86(ISA):
                 mem_references += [
                     op for op in line.semantic_operands["source"] if isinstance(op, MemoryOperand)
                 ]
-            if re.match(r"^inc[bwlq]?$", line.mnemonic):
-                reg = line.operands[0].name
-                modified_registers.append(reg)
-                increments[reg] = 1
+            modified_registers += [
+                op.name
+                for op in chain(
+                    line.semantic_operands["destination"], line.semantic_operands["src_dst"]
+                )
+                if isinstance(op, RegisterOperand)
+            ]
+            if re.match(r"^inc[bwlq]?$", line.mnemonic) and isinstance(
+                line.operands[0], RegisterOperand
+            ):
+                increments[line.operands[0].name] = 1
             elif (
                 re.match(r"^add[bwlq]?$", line.mnemonic)
                 and isinstance(line.operands[0], ImmediateOperand)
                 and isinstance(line.operands[1], RegisterOperand)
             ):
-                reg = line.operands[1].name
-                increments[reg] = int(line.operands[0].value)
-                modified_registers.append(reg)
-            elif re.match(r"^dec[bwlq]?$", line.mnemonic):
-                reg = line.operands[0].name
-                modified_registers.append(reg)
-                increments[reg] = -1
+                increments[line.operands[1].name] = int(line.operands[0].value)
+            elif re.match(r"^dec[bwlq]?$", line.mnemonic) and isinstance(
+                line.operands[0], RegisterOperand
+            ):
+                increments[line.operands[0].name] = -1
             elif (
                 re.match(r"^sub[bwlq]?$", line.mnemonic)
                 and isinstance(line.operands[0], ImmediateOperand)
                 and isinstance(line.operands[1], RegisterOperand)
             ):
-                reg = line.operands[1].name
-                modified_registers.append(reg)
-                increments[reg] = -int(line.operands[0].value)
-            elif re.match(r"^lea[bwlq]?$", line.mnemonic):
+                increments[line.operands[1].name] = -int(line.operands[0].value)
+            elif (
+                re.match(r"^lea[bwlq]?$", line.mnemonic)
+                and isinstance(line.operands[0], MemoryOperand)
+                and isinstance(line.operands[0].offset, ImmediateOperand)
+            ):
                 # `lea 1(%r11), %r11` is the same as `add $1, %r11`
                 if (
                     line.operands[0].base is not None
                     and line.operands[0].base.name == line.operands[1].name
                     and line.operands[0].index is None
                 ):
-                    reg = line.operands[1].name
-                    modified_registers.append(reg)
-                    increments[reg] = int(line.operands[0].offset.value)
+                    increments[line.operands[1].name] = int(line.operands[0].offset.value)
                 # `lea 1(,%r11), %r11` is the same as `add $1, %r11`
                 if (
                     line.operands[0].index is not None
                     and line.operands[0].index.name == line.operands[1].name
                     and line.operands[0].base is None
+                    and line.operands[0].scale == 1
                 ):
-                    reg = line.operands[1].name
-                    modified_registers.append(reg)
-                    increments[reg] = int(line.operands[0].offset.value)
+                    increments[line.operands[1].name] = int(line.operands[0].offset.value)
 
-        # deduce loop increment from memory index register
+        # deduce loop increment from movement of memory references
         pointer_increment = None  # default -> can not decide, let user choose
-        possible_idx_regs = None
-        if mem_references:
-            # we found memory references to work with
-            possible_idx_regs = list(
-                set(increments.keys()).intersection(
-                    set(
-                        [mref.base.name for mref in mem_references if mref.base is not None]
-                        + [mref.index.name for mref in mem_references if mref.index is not None]
-                    )
-                )
-            )
-            for mref in mem_references:
-                for reg in list(possible_idx_regs):
-                    # Only consider references with two registers, where one could be an
-                    # index
-                    if None not in [mref.base, mref.index]:
-                        # One needs to mach, other registers will be excluded
-                        if not (
-                            (mref.base is not None and reg == mref.base.name)
-                            or (mref.index is not None and reg == mref.index.name)
-                        ):
-                            # reg can not be it
-                            possible_idx_regs.remove(reg)
-
-            idx_reg = None
-            if len(possible_idx_regs) == 1:
-                # good, exactly one register was found
-                idx_reg = possible_idx_regs[0]
-            elif possible_idx_regs and itemsEqual(
-                [increments[pidxreg] for pidxreg in possible_idx_regs]
-            ):
-                # multiple were option found, but all have the same increment
-                # use first match:
-                idx_reg = possible_idx_regs[0]
-
-            if idx_reg and modified_registers.count(idx_reg) == 1:
-                mem_scales = [
-                    mref.scale
-                    for mref in mem_references
-                    if (mref.index is not None and idx_reg == mref.index.name)
-                    or (mref.base is not None and idx_reg == mref.base.name)
-                ]
-
-                if itemsEqual(mem_scales):
-                    # good, all scales are equal
-                    pointer_increment = mem_scales[0] * increments[idx_reg]
+        movements = []
+        for mref in mem_references:
+            movement = 0
+            for reg, scale in [(mref.base, 1), (mref.index, mref.scale)]:
+                # registers without increment are assumed to be the same in all iterations
+                if reg is not None and reg.name in increments:
+                    if modified_registers.count(reg.name) != 1:
+                        # there is more to it than the increment
+                        movement = None
+                        break
+                    movement += scale * increments[reg.name]
+            if movement != 0:
+                movements.append(movement)
+
+        if movements and None not in movements and itemsEqual(movements):
+            # good, all moving references do so by the same distance
+            pointer_increment = movements[0]
 
         if pointer_increment is None:
             pointer_increment = find_increment_in_cache(block)
-- 
2.43.0


From 0fdd5f45c7ec809922b8285291109f3a5efc86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 30/65] fix: detect the distance that addresses of AArch64
 blocks really move by

---
 kerncraft/incore_model.py | 72 ++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index ee91d81..70aa3d2 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -272,6 +272,7 @@ class AArch64(ISA):
     def get_pointer_increment(block):
         """Return pointer increment."""
         increments = defaultdict(int)
+        incremented_registers = set()
         mem_references = []
         stores_only = False
 
@@ -289,11 +290,14 @@ class AArch64(ISA):
                 if isinstance(d, MemoryOperand):
                     if d.post_indexed is not False or d.pre_indexed:
                         modified_registers[AArch64.normalize_to_register_str(d.base)] += 1
-                        inc = 1
-                        if isinstance(d.post_indexed, dict):
+                        incremented_registers.add(AArch64.normalize_to_register_str(d.base))
+                        if isinstance(d.post_indexed, dict) and "value" in d.post_indexed:
                             inc = int(d.post_indexed["value"])
-                        if d.pre_indexed:
+                        elif d.pre_indexed and isinstance(d.offset, ImmediateOperand):
                             inc = int(d.offset.value)
+                        else:
+                            # increment by the value of a register
+                            continue
                         increments[AArch64.normalize_to_register_str(d.base)] = inc
 
         for line in block:
@@ -355,8 +359,9 @@ class AArch64(ISA):
             ):
                 reg_name = AArch64.normalize_to_register_str(line.operands[0])
                 inc = -int(line.operands[2].value)
-                if reg_name in increments and increments[reg_name] == inc:
-                    increments[reg_name] = inc
+                increments[reg_name] = inc
+
+        incremented_registers.update(increments)
 
         # Remove any increments that are modiefed more than once
         increments = {
@@ -387,25 +392,28 @@ class AArch64(ISA):
             # ADD|SUB dest_reg, const_reg, increment_reg (source registers may be switched)
             m = re.match(r"^(add|sub)[s]?$", line.mnemonic)
             if m:
-                if m.group(1) == "add":
-                    factor = 1
-                else:
-                    factor = -1
                 if not isinstance(line.operands[1], RegisterOperand) or not isinstance(
                     line.operands[2], RegisterOperand
                 ):
                     continue
+                # factor and shift of the last source register
+                factor = 1 if m.group(1) == "add" else -1
+                shift = re.search(r",\s*(?:lsl|[su]xt[wx])\s*#?([0-9]+)", line.line)
+                if shift:
+                    factor *= 2 ** int(shift.group(1))
                 for i, j in [(1, 2), (2, 1)]:
                     reg_i_name = AArch64.normalize_to_register_str(line.operands[i])
                     reg_j_name = AArch64.normalize_to_register_str(line.operands[j])
                     if reg_i_name in increments and reg_j_name not in modified_registers:
                         reg_dest_name = AArch64.normalize_to_register_str(line.operands[0])
-                        inc = factor * increments[reg_i_name]
+                        inc = (factor if i == 2 else 1) * increments[reg_i_name]
                         if reg_dest_name in increments and increments[reg_dest_name] == inc:
                             modified_registers[reg_dest_name] -= 1
                         increments[reg_dest_name] = inc
                         new_increments.append(reg_dest_name)
 
+        incremented_registers.update(increments)
+
         # Remove any increments that are modified more often than updates have been detected
         increments = {
             reg_name: inc
@@ -429,34 +437,34 @@ class AArch64(ISA):
                         src_reg_name
                     ] * 2 ** int(line.operands[2].value)
 
-        # deduce loop increment from memory index register
-        address_registers = []
-        scales = defaultdict(lambda: 1)
+        # deduce loop increment from movement of memory references
+        movements = []
         for mref in mem_references:
             # Assume base to be scaled
             base_reg = AArch64.normalize_to_register_str(mref.base)
+            scaled_registers = [(base_reg, 1)]
             if mref.index is not None:
-                # If index register is used, check which is incremented
-                index_reg = AArch64.normalize_to_register_str(mref.index)
-                if index_reg in increments:
-                    reg = index_reg
-                    # If index is used, a scale other than 1 needs to be considered
-                    if mref.index.shift:
-                        scales[reg] = 2 ** int(mref.index.shift[0]["value"])
-                else:
-                    reg = base_reg
-            else:
-                reg = base_reg
-            # ignore all unmodiefed registers
-            if reg in modified_registers:
-                address_registers.append(reg)
-            increment = None
+                # If index is used, a scale other than 1 needs to be considered
+                scale = 2 ** int(mref.index.shift[0]["value"]) if mref.index.shift else 1
+                scaled_registers.append((AArch64.normalize_to_register_str(mref.index), scale))
+            if any([reg in incremented_registers and reg not in increments
+                    for reg, scale in scaled_registers]):
+                # there is more to it than the increment
+                movements.append(None)
+            elif any([reg in increments for reg, scale in scaled_registers]):
+                movement = sum([scale * increments[reg] for reg, scale in scaled_registers
+                                if reg in increments])
+                if movement != 0:
+                    movements.append(movement)
+            elif base_reg in modified_registers:
+                # movement is unknown
+                movements.append(None)
+            # ignore all unmodified registers
 
         pointer_increment = None  # default -> can not decide, let user choose
-        if address_registers and all([reg in increments for reg in address_registers]):
-            if itemsEqual([increments[reg] for reg in address_registers]):
-                # good, all relevant increments are equal
-                pointer_increment = increments[address_registers[0]] * scales[address_registers[0]]
+        if movements and None not in movements and itemsEqual(movements):
+            # good, all moving references do so by the same distance
+            pointer_increment = movements[0]
 
         # Check cache as last resort
         if pointer_increment is None:
-- 
2.43.0


From f5975296433c9556acf6dd06d13222a67f7d7edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 31/65] fix: models take blocks and pointer increments as
 numbers without args

---
 kerncraft/models/ecm.py      | 4 ++--
 kerncraft/models/roofline.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 098f89c..f1fdbaa 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -278,12 +278,12 @@ class ECMCPU(PerformanceModel):
         # Validate arguments
         if self.asm_block not in ['auto', 'manual']:
             try:
-                self.asm_block = int(args.asm_block)
+                self.asm_block = int(self.asm_block)
             except ValueError:
                 parser.error('asm_block can only be "auto", "manual" or an integer')
         if self.pointer_increment not in ['auto', 'auto_with_manual_fallback', 'manual']:
             try:
-                self.pointer_increment = int(args.pointer_increment)
+                self.pointer_increment = int(self.pointer_increment)
             except ValueError:
                 parser.error('pointer_increment can only be "auto", '
                              '"auto_with_manual_fallback", "manual" or an integer')
diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 5bbc854..cd1452d 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -274,12 +274,12 @@ class RooflineASM(RooflineFLOP):
         # Validate arguments
         if self.asm_block not in ['auto', 'manual']:
             try:
-                self.asm_block = int(args.asm_block)
+                self.asm_block = int(self.asm_block)
             except ValueError:
                 parser.error('asm_block can only be "auto", "manual" or an integer')
         if self.pointer_increment not in ['auto', 'auto_with_manual_fallback', 'manual']:
             try:
-                self.pointer_increment = int(args.pointer_increment)
+                self.pointer_increment = int(self.pointer_increment)
             except ValueError:
                 parser.error('pointer_increment can only be "auto", '
                              '"auto_with_manual_fallback", "manual" or an integer')
-- 
2.43.0


From 576d2a68aa1f54e50b79dded0839b52a3e8a7b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 32/65] fix: number of the block to be analyzed may be given

---
 kerncraft/incore_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 70aa3d2..e806ec3 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -614,8 +614,8 @@ def asm_instrumentation(
 
     :param input_file: file-like object to read from
     :param output_file: file-like object to write to
-    :param block_selection: label of the assembly block to instrument, or 'auto' for automatically
-                            using block with the
+    :param block_selection: number of the assembly block to instrument (in order of appearance,
+                            starting with 0), or 'auto' for automatically using block with the
                             most vector instructions, or 'manual' to read index to prompt user
     :param pointer_increment: number of bytes the pointer is incremented after the loop or
                               - 'auto': automatic detection, otherwise RuntimeError is raised
@@ -643,7 +643,10 @@ def asm_instrumentation(
             loop_blocks, default=ISA.get_isa(isa).select_best_block(loop_blocks), debug=debug
         )
     elif isinstance(block_selection, int):
-        block_label = block_selection
+        if not 0 <= block_selection < len(loop_blocks):
+            raise ValueError("block_selection has to be less than the number of blocks ({})".format(
+                len(loop_blocks)))
+        block_label = list(loop_blocks)[block_selection]
     else:
         raise ValueError("block_selection has to be an integer, 'auto' or 'manual' ")
     block_lines = loop_blocks[block_label]
-- 
2.43.0


From 00dca60dfe701d541a88a04b5172b3b4b483f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 33/65] fix: read values of counters with options without a
 value

---
 kerncraft/models/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 9f6b840..ae431c8 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -252,7 +252,7 @@ def perfctr(cmd, cores, group='MEM', code_markers=True, verbose=0):
             else:
                 counter_value = int(line[2])
             if re.fullmatch(r'[A-Z0-9_]+', line[0]) and \
-                    re.fullmatch(r'[A-Z0-9]+(:[A-Z0-9]+=[0-9a-fA-Fx]+)*', line[1]):
+                    re.fullmatch(r'[A-Z0-9]+(:[A-Za-z0-9_=-]+)*', line[1]):
                 results.setdefault(line[0], {})
                 results[line[0]][line[1]] = counter_value
                 continue
-- 
2.43.0


From 9a2f82e0c069d081bff5483429322dad157f66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 34/65] fix: keep values of an event counted in several runs

---
 kerncraft/models/benchmark.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index ae431c8..137218d 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -433,7 +433,9 @@ class Benchmark(PerformanceModel):
                 ctrs = ','.join([eventstr(e) for e in run])
                 r = self.perfctr([bench_filename] + [str(repetitions)] + args, group=ctrs)
                 raw_results.append(r)
-                measured_ctrs.update(r)
+                for event, counts in r.items():
+                    if isinstance(counts, dict):
+                        measured_ctrs.setdefault(event, {}).update(counts)
             bench_lock_fp.close()
             # Match measured counters to symbols
             event_counter_results = {}
-- 
2.43.0


From 9aedeacb79b1e3d61f134e019d0aaed03e8f4496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 35/65] fix: event strings from keyword arguments

---
 kerncraft/models/benchmark.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 137218d..0ca2620 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -144,10 +144,11 @@ def eventstr(event_tuple=None, event=None, register=None, parameters=None):
     >>> eventstr(event='DTLB_LOAD_MISSES_WALK_DURATION', register='PMC3')
     'DTLB_LOAD_MISSES_WALK_DURATION:PMC3'
     """
-    if len(event_tuple) == 3:
-        event, register, parameters = event_tuple
-    elif len(event_tuple) == 2:
-        event, register = event_tuple
+    if event_tuple is not None:
+        if len(event_tuple) == 3:
+            event, register, parameters = event_tuple
+        elif len(event_tuple) == 2:
+            event, register = event_tuple
     event_dscr = [event, register]
 
     if parameters:
-- 
2.43.0


From 459a5f0815a7cce965b17ae28568fc3619ff3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 36/65] fix: tell counters apart whose descriptions are
 contained in others

---
 kerncraft/machinemodel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 011bf8d..72aad01 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -596,8 +596,12 @@ class MachineModel(object):
         temp_metric = metric
         temp_pc_names = {"SYM{}".format(re.sub("[\[\]\-|=:]", "_", pc)): pc
                          for i, pc in enumerate(perfcounters)}
-        for var_name, pc in temp_pc_names.items():
-            temp_metric = temp_metric.replace(pc, var_name)
+        # Longest first, because some may be contained in others
+        var_names = {pc: var_name for var_name, pc in temp_pc_names.items()}
+        if var_names:
+            temp_metric = re.sub('|'.join(re.escape(pc) for pc in
+                                          sorted(var_names, key=len, reverse=True)),
+                                 lambda m: var_names[m.group()], temp_metric)
         # Parse temporary expression
         expr = parse_expr(temp_metric)
 
-- 
2.43.0


From f3ba47999b4bc3ae79ba60c63e2b77818eb265b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 37/65] fix: benchmark model without command line arguments

---
 kerncraft/models/benchmark.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 0ca2620..427cd75 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -304,12 +304,16 @@ class Benchmark(PerformanceModel):
             self.no_phenoecm = args.no_phenoecm
             self.verbose = args.verbose
             self.iterations = args.iterations
+            self.cores = args.cores
+            self.ignore_warnings = args.ignore_warnings
         else:
             self.no_phenoecm = no_phenoecm
             self.verbose = verbose
             self.iterations = 10
+            self.cores = 1
+            self.ignore_warnings = False
 
-        if self._args.cores > 1 and not self.no_phenoecm:
+        if self.cores > 1 and not self.no_phenoecm:
             print("Info: phenological ECM model can only be created with a single core benchmark.",
                   file=sys.stderr)
             self.no_phenoecm = True
@@ -325,7 +329,7 @@ class Benchmark(PerformanceModel):
 
         if not self.machine.current_system(print_diff=True):
             print("WARNING: current machine and machine description do not match.")
-            if not args.ignore_warnings:
+            if not self.ignore_warnings:
                 print("You may ignore warnings by adding --ignore-warnings to the command line.")
                 sys.exit(1)
 
@@ -338,7 +342,7 @@ class Benchmark(PerformanceModel):
         if CLI argument cores > 1, running with multi-core, otherwise single-core
         """
         results = perfctr(
-            cmd=cmd, cores=self._args.cores, group=group, code_markers=code_markers,
+            cmd=cmd, cores=self.cores, group=group, code_markers=code_markers,
             verbose=self.verbose)
 
         # Check that frequency during measurement matches machine description
@@ -349,7 +353,7 @@ class Benchmark(PerformanceModel):
                 print("WARNING: measured CPU frequency and machine description did "
                       "not match during likwid-perfctr run. ({!r} vs {!r})".format(
                     expected_clock, current_clock))
-                if not self._args.ignore_warnings:
+                if not self.ignore_warnings:
                     print("You may ignore warnings by adding --ignore-warnings to the command line.")
                     sys.exit(1)
 
@@ -358,7 +362,7 @@ class Benchmark(PerformanceModel):
     def analyze(self):
         """Run analysis."""
         bench_filename, bench_lock_fp = self.kernel.build_executable(
-            verbose=self.verbose > 1, openmp=self._args.cores > 1)
+            verbose=self.verbose > 1, openmp=self.cores > 1)
         element_size = self.kernel.datatypes_size[self.kernel.datatype]
 
         # Build arguments to pass to command:
-- 
2.43.0


From ecb19c45ac768104095f586e2e43cb3e0c12e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 38/65] fix: benchmarked iterations if a range is no multiple
 of its step

---
 kerncraft/models/benchmark.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 427cd75..71cae09 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -397,11 +397,7 @@ class Benchmark(PerformanceModel):
 
         # Base metrics for further metric computations:
         # An iteration is equal to one high-level code inner-most-loop iteration
-        iterations_per_repetition = reduce(
-            operator.mul,
-            [self.kernel.subs_consts(max_ - min_) / self.kernel.subs_consts(step)
-             for idx, min_, max_, step in self.kernel._loop_stack],
-            1)
+        iterations_per_repetition = self.kernel.iteration_length()
         iterations_per_cacheline = (float(self.machine['cacheline size']) /
                                     self.kernel.bytes_per_iteration)
         cys_per_repetition = time_per_repetition * float(self.machine['clock'])
-- 
2.43.0


From c87df136add561773ed38aa742c61be1e265e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 39/65] fix: remove adjacent comments and comments at the end
 of code

---
 kerncraft/pycparser_utils.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/kerncraft/pycparser_utils.py b/kerncraft/pycparser_utils.py
index bd988a5..8005a8f 100644
--- a/kerncraft/pycparser_utils.py
+++ b/kerncraft/pycparser_utils.py
@@ -2,6 +2,7 @@
 """Collection of functions that extend pycparser's functionality."""
 
 import collections
+import re
 
 from pycparser import c_ast
 
@@ -34,22 +35,12 @@ def clean_code(code, comments=True, macros=False, pragmas=False):
         code = '\n'.join(lines)
 
     if comments:
-        idx = 0
-        comment_start = None
-        while idx < len(code) - 1:
-            if comment_start is None and code[idx:idx + 2] == '//':
-                end_idx = code.find('\n', idx)
-                code = code[:idx] + code[end_idx:]
-                idx -= end_idx - idx
-            elif comment_start is None and code[idx:idx + 2] == '/*':
-                comment_start = idx
-            elif comment_start is not None and code[idx:idx + 2] == '*/':
-                code = (code[:comment_start] +
-                        '\n' * code[comment_start:idx].count('\n') +
-                        code[idx + 2:])
-                idx -= idx - comment_start
-                comment_start = None
-            idx += 1
+        def blank(match):
+            """Blank lines for all but the last line, multiline comments separate like a blank"""
+            comment = match.group()
+            return (' ' if comment.startswith('/*') else '') + '\n' * comment.count('\n')
+
+        code = re.sub(r'//(?:\\\n|[^\n])*|/\*.*?\*/', blank, code, flags=re.DOTALL)
 
     return code
 
-- 
2.43.0


From bc17112ec4f0a7c3b2fda231df7a3752b7dbbf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 40/65] fix: merge pickles with current versions of Python

---
 kerncraft/picklemerge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index e2bf290..27eced4 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -2,7 +2,7 @@
 """Merge two pickle files containing dictionarys recursively."""
 import argparse
 import pickle
-import collections
+import collections.abc
 
 
 def update(d, u):
@@ -12,7 +12,7 @@ def update(d, u):
     Origin: http://stackoverflow.com/a/3233356/2754040
     """
     for k, v in u.items():
-        if isinstance(v, collections.Mapping):
+        if isinstance(v, collections.abc.Mapping):
             r = update(d.get(k, {}), v)
             d[k] = r
         else:
@@ -33,11 +33,11 @@ def main():
     args = parser.parse_args()
 
     result = pickle.load(args.destination)
-    assert isinstance(result, collections.Mapping), "only Mapping types can be handled."
+    assert isinstance(result, collections.abc.Mapping), "only Mapping types can be handled."
 
     for s in args.source:
         data = pickle.load(s)
-        assert isinstance(data, collections.Mapping), "only Mapping types can be handled."
+        assert isinstance(data, collections.abc.Mapping), "only Mapping types can be handled."
 
         update(result, data)
 
-- 
2.43.0


From c9f1e6687f60acbadc94e5aa7c85e64a238e0ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 41/65] fix: merge dictionaries in place of other values

---
 kerncraft/picklemerge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index 27eced4..f4810af 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -13,8 +13,9 @@ def update(d, u):
     """
     for k, v in u.items():
         if isinstance(v, collections.abc.Mapping):
-            r = update(d.get(k, {}), v)
-            d[k] = r
+            if not isinstance(d.get(k), collections.abc.Mapping):
+                d[k] = {}
+            update(d[k], v)
         else:
             d[k] = u[k]
     return d
-- 
2.43.0


From 356758ca60c938c3d83af3d47594cca55c691012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 42/65] fix: refuse definitions that are no integers or ranges

---
 kerncraft/kerncraft.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 6e96958..da2deca 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -102,9 +102,9 @@ class AppendStringRange(argparse.Action):
         if len(values) != 2:
             message = 'requires 2 arguments'
         else:
-            m = re.match(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
-                         r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?',
-                         values[1])
+            m = re.fullmatch(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
+                             r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?',
+                             values[1])
             if m:
                 gd = m.groupdict()
                 if gd['stop'] is None:
-- 
2.43.0


From ebd5bd60e79857cf49ed161ac7853042d8248774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 43/65] fix: analyze each combination of constants once

---
 kerncraft/kerncraft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index da2deca..0a90e82 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -350,7 +350,7 @@ def run(parser, args, output_file=sys.stdout):
         args.define.sort()
         # Prefill with default value, if any is given
         if '.' in [n for n,v in args.define]:
-            default_const_values = dict(args.define)['.']
+            default_const_values = [v for n, values in args.define if n == '.' for v in values]
             for name in required_consts:
                 name = str(name)
                 define_dict[str(name)] = [[str(name), v] for v in default_const_values]
@@ -361,9 +361,9 @@ def run(parser, args, output_file=sys.stdout):
             if name not in define_dict:
                 define_dict[name] = [[name, v] for v in values]
                 continue
-            for v in values:
-                if v not in define_dict[name]:
-                    define_dict[name].append([name, v])
+            define_dict[name] += [[name, v] for v in values]
+        for name in define_dict:
+            define_dict[name] = [[name, v] for v in uniquify([v for _, v in define_dict[name]])]
         define_product = list(itertools.product(*list(define_dict.values())))
         # Check that all consts have been defined
         if set(required_consts).difference(set([symbol_pos_int(k) for k in define_dict.keys()])):
-- 
2.43.0


From 92f03e83a4a1fe495291d4ef82a04f69c57fd902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 44/65] fix: constants may be used in the increment of a loop

---
 kerncraft/kerncraft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 0a90e82..7662c7f 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -335,12 +335,12 @@ def run(parser, args, output_file=sys.stdout):
     loop_indices = set([symbol_pos_int(l['index']) for l in kernel.get_loop_stack()])
     # define constants
     required_consts = [v[1] for v in kernel.variables.values() if v[1] is not None]
-    required_consts += [[l['start'], l['stop']] for l in kernel.get_loop_stack()]
+    required_consts += [[l['start'], l['stop'], l['increment']] for l in kernel.get_loop_stack()]
     required_consts += [i for a in kernel.sources.values() for i in a if i is not None]
     required_consts += [i for a in kernel.destinations.values() for i in a if i is not None]
     # split into individual consts
     required_consts = [i for l in required_consts for i in l]
-    required_consts = set([i for l in required_consts for i in l.free_symbols])
+    required_consts = set([i for l in required_consts for i in getattr(l, 'free_symbols', ())])
     # remove loop indices
     required_consts -= loop_indices
 
-- 
2.43.0


From c5597f763b644c6631b97c540d0109ea0028013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 45/65] fix: analyze kernels without constants

---
 kerncraft/kerncraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 7662c7f..c9b4638 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -370,7 +370,7 @@ def run(parser, args, output_file=sys.stdout):
             raise ValueError("Not all constants have been defined. Required are: {}".format(
                 required_consts))
     else:
-        define_product = [{}]
+        define_product = [()]
 
     for define in define_product:
         # Reset state of kernel
-- 
2.43.0


From 2441ae66701abc35c2369a868f54680b7bd2e744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 46/65] fix: write machine descriptions with current versions
 of ruamel.yaml

---
 kerncraft/machinemodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 72aad01..569b774 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -620,9 +620,14 @@ class MachineModel(object):
         Return YAML string to store machine model and store to f (if path or fp passed).
         """
         yaml = ruamel.yaml.YAML()
-        yaml_string = yaml.dump(self._data)
+        yaml.register_class(PrefixedUnit)
+        stream = io.StringIO()
+        yaml.dump(self._data, stream)
+        yaml_string = stream.getvalue()
         if f is None:
             f = self._path
+        if f is None:
+            return yaml_string
 
         if isinstance(f, io.IOBase):
             f.write(yaml_string)
-- 
2.43.0


From 1cc161c2737801e12dbede2731124e13c88f19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 47/65] fix: repeat benchmarks of a machine whose sizes have
 changed

---
 kerncraft/machinemodel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 569b774..d55a6c4 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -288,10 +288,14 @@ class MachineModel(object):
                 if threads_per_core in measurement:
                     for k, v in sizes_dict.items():
                         if k in measurement[threads_per_core]:
-                            if v == sizes_dict[k]:
+                            previous = measurement[threads_per_core][k]
+                            if v == previous:
                                 # Exact compartison matched
                                 continue
-                            for i, j in zip(v, sizes_dict[k]):
+                            if not isinstance(v, list) or len(v) != len(previous):
+                                needs_update = True
+                                break
+                            for i, j in zip(v, previous):
                                 # Fuzzy comparison with relative error tolerance of 1%
                                 if abs(i - j)/min(i, j) >= 0.01:
                                     needs_update = True
-- 
2.43.0


From 7fb6691edc626fde0e2be80e251dc8c086e30ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 48/65] fix: benchmark a machine with verbose output

---
 kerncraft/machinemodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index d55a6c4..03af07b 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -350,8 +350,6 @@ class MachineModel(object):
 
             # Run actual benchmarks and safe machine file in between
             for mem_level in sorted(list(benchmarks['measurements'].keys())):
-                if verbose > 1:
-                    print('Running for {} with {}kB'.format(mem_level, int(float(total_size) / 1000)), file=sys.stderr)
                 for threads_per_core in sorted(list(benchmarks['measurements'][mem_level].keys())):
                     measurement = benchmarks['measurements'][mem_level][threads_per_core]
                     if overwrite or kernel not in measurement['results'] or \
@@ -366,6 +364,9 @@ class MachineModel(object):
                         if len(measurement['results'][kernel]) > i:
                             # Skip already existing data
                             continue
+                        if verbose > 1:
+                            print('Running for {} with {}kB'.format(
+                                mem_level, int(float(total_size) / 1000)), file=sys.stderr)
                         stats = []
                         for r in range(repetitions):
                             stats.append(measure_bw(
-- 
2.43.0


From 4f5571dd5b822f46b47c1c26e422e9f02e8fa439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 49/65] fix: read the memory hierarchy without placeholders

---
 kerncraft/machinemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 03af07b..49dd379 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -763,6 +763,8 @@ def get_memory_hierarchy(placeholders=True, cpuinfo_path: str='/proc/cpuinfo'):
                     ('write_allocate', 'INFORMATION_REQUIRED (True/False)'),
                     ('write_back', 'INFORMATION_REQUIRED (True/False)'),
                 ])
+            else:
+                mem_level['cache per group'] = OrderedDict()
             mem_level['cache per group']['load_from'] = 'L' + str(int(mem_level['level'][1:]) + 1)
             mem_level['cache per group']['store_to'] = 'L' + str(int(mem_level['level'][1:]) + 1)
             mem_level['size per group'] = size
-- 
2.43.0


From 373c10095cb35ff7a723caf0a7aed00f97ff64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 50/65] fix: keep readouts of the machine apart from machine
 models

---
 kerncraft/machinemodel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 49dd379..2692458 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -189,10 +189,10 @@ class MachineModel(object):
                machine_state=True, cpuinfo_path: str='/proc/cpuinfo'):
         """Update model from readouts and benchmarks on current machine."""
         if readouts:
-            self._data.update(get_machine_readouts(cpuinfo_path=cpuinfo_path))
+            self._data.update(deepcopy(get_machine_readouts(cpuinfo_path=cpuinfo_path)))
         if memory_hierarchy:
-            self._data.update(get_memory_hierarchy(placeholders=overwrite,
-                                                   cpuinfo_path=cpuinfo_path))
+            self._data.update(deepcopy(get_memory_hierarchy(placeholders=overwrite,
+                                                            cpuinfo_path=cpuinfo_path)))
 
         if benchmarks:
             self._update_benchmarks()
@@ -559,8 +559,8 @@ class MachineModel(object):
 
         :return: True if it is the same
         """
-        current_topology = get_machine_readouts()
-        current_topology.update(get_memory_hierarchy())
+        current_topology = deepcopy(get_machine_readouts())
+        current_topology.update(deepcopy(get_memory_hierarchy()))
         same = True
         for k in ['model type', 'model name', 'sockets', 'cores per socket', 'threads per core',
                   'NUMA domains per socket', 'cores per NUMA domain', 'transparent hugepage']:
-- 
2.43.0


From e702b29e38dbd2240b20300f72169cf83abce10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 51/65] fix: compare machines to descriptions without all
 readouts

---
 kerncraft/machinemodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 2692458..0992ea9 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -564,10 +564,11 @@ class MachineModel(object):
         same = True
         for k in ['model type', 'model name', 'sockets', 'cores per socket', 'threads per core',
                   'NUMA domains per socket', 'cores per NUMA domain', 'transparent hugepage']:
-            if current_topology[k] != self[k]:
+            expected = self[k] if k in self else None
+            if current_topology[k] != expected:
                 if print_diff:
                     print("Expected {!r} and found {!r} for key {!r}.".format(
-                        self[k], current_topology[k], k))
+                        expected, current_topology[k], k))
                 same = False
         return same
 
-- 
2.43.0


From cbb61e462ac198647c4059baa85efc8b2f390272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 52/65] fix: let LLVM-MCA analyse the marked section

---
 kerncraft/incore_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index e806ec3..6da5821 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -798,8 +798,14 @@ def llvm_mca_analyse_instrumented_assembly(
     """
     result = {}
     with open(instrumented_assembly_file) as f:
-        parsed_code = parse_asm(f.read(), isa, micro_architecture)
-    kernel = osaca.reduce_to_section(parsed_code, isa)
+        code = f.read()
+    parsed_code = parse_asm(code, isa, "csx" if isa == "x86" else "a64fx")
+    osaca_version_tuple = tuple(map(int, (osaca.get_version().split("."))))
+    if osaca_version_tuple >= (0,7,0):
+        syntax = detect_x86_syntax(code) if isa == "x86" else ""
+        kernel = osaca.reduce_to_section(parsed_code, get_parser(isa, syntax=syntax))
+    else:
+        kernel = osaca.reduce_to_section(parsed_code, isa)
     assembly_section = "\n".join([l.line for l in kernel])
 
     output = subprocess.check_output(
-- 
2.43.0


From c106b8fec16d62752ccc9a04463ddc7362d13919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 53/65] fix: print whole reports to the output file

---
 kerncraft/models/benchmark.py       | 18 +++++++++---------
 kerncraft/models/ecm.py             |  7 ++++---
 kerncraft/models/layer_condition.py | 14 ++++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 71cae09..cb226e7 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -530,7 +530,7 @@ class Benchmark(PerformanceModel):
         """Report gathered analysis data in human readable form."""
         if self.verbose > 1:
             with pprint_nosort():
-                pprint.pprint(self.results)
+                pprint.pprint(self.results, stream=output_file)
 
         if self.verbose > 0:
             print('Runtime (per repetition): {:.2g} s'.format(
@@ -558,19 +558,19 @@ class Benchmark(PerformanceModel):
         print('', file=output_file)
 
         if not self.no_phenoecm:
-            print("Data Transfers:")
-            print("{:^8} |".format("cache"), end='')
+            print("Data Transfers:", file=output_file)
+            print("{:^8} |".format("cache"), end='', file=output_file)
             metric_names = ['loads', 'misses', 'stores', 'evicts']
             for mn in metric_names:
-                print(" {:^14}".format(mn), end='')
-            print()
+                print(" {:^14}".format(mn), end='', file=output_file)
+            print(file=output_file)
             for cache, metrics in sorted(self.results['data transfers'].items()):
-                print("{!s:^8} |".format(cache), end='')
+                print("{!s:^8} |".format(cache), end='', file=output_file)
                 for mn in metric_names:
                     v = metrics.get(mn, '-')
-                    print(" {!s:^14}".format(v), end='')
-                print()
-            print()
+                    print(" {!s:^14}".format(v), end='', file=output_file)
+                print(file=output_file)
+            print(file=output_file)
 
             print('Phenomenological ECM model: {{ {T_OL:.1f} || {T_nOL:.1f} | {T_L1L2:.1f} | '
                   '{T_L2L3:.1f} | {T_MEM:.1f} }} cy/CL'.format(
diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index f1fdbaa..1e8d4ab 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -216,7 +216,8 @@ class ECMData(PerformanceModel):
                 level, self.conv_cy(cycles)[self._args.unit]), file=output_file)
 
         if self.results['penalty']:
-            print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']))
+            print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']),
+                  file=output_file)
 
         if self.verbose > 1:
             if 'memory bandwidth kernel' in self.results:
@@ -571,8 +572,8 @@ class ECM(PerformanceModel):
         """Print generated model data in human readable format."""
         report = ''
         if self.verbose > 1:
-            self._CPU.report()
-            self._data.report()
+            self._CPU.report(output_file=output_file)
+            self._data.report(output_file=output_file)
 
         model_construction = 'max({}, sum({})) cy/CL'.format(
             ', '.join(self.results['ECM Model Construction'][:-1]),
diff --git a/kerncraft/models/layer_condition.py b/kerncraft/models/layer_condition.py
index fc89b3c..f8f48ff 100755
--- a/kerncraft/models/layer_condition.py
+++ b/kerncraft/models/layer_condition.py
@@ -52,16 +52,18 @@ class LC(PerformanceModel):
     def report(self, output_file=sys.stdout):
         """Report generated model in human readable form."""
         if self._args and self._args.verbose > 2:
-            pprint(self.results)
-            print()
+            pprint(self.results, stream=output_file)
+            print(file=output_file)
 
         for cache, cache_results in zip(
                 self.machine.get_cachesim(self._args.cores).levels(with_mem=False),
                 self.results['cache']):
-            print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:")
-            print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"))
+            print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:",
+                  file=output_file)
+            print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"), file=output_file)
             for lc_condition in cache_results:
                 print("    {!r:>35} {:>7} {:>5}".format(lc_condition['condition'],
                                                       lc_condition['misses'],
-                                                      lc_condition['hits']))
-            print()
+                                                      lc_condition['hits']),
+                      file=output_file)
+            print(file=output_file)
-- 
2.43.0


From cfed3b767fa96fbb31901de3e3e4461de7993c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 54/65] fix: recognise incomplete definitions of the
 phenomenological ECM model

---
 kerncraft/models/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index cb226e7..31bc3bd 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -317,7 +317,7 @@ class Benchmark(PerformanceModel):
             print("Info: phenological ECM model can only be created with a single core benchmark.",
                   file=sys.stderr)
             self.no_phenoecm = True
-        elif "INFORAMTION_REQUIRED" in ''.join(
+        elif "INFORMATION_REQUIRED" in ''.join(
                 [self.machine['overlapping model']['performance counter metric'],
                  self.machine['non-overlapping model']['performance counter metric']]):
             print("Info: disabled phenological ECM model, because definition is incomplete.",
-- 
2.43.0


From 3c26d3dfb0bebd54c7329509af6e11b858194c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 55/65] fix: keep intermediates of different compiler flags
 apart

---
 kerncraft/kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 7b6b16c..614eecd 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -799,7 +799,10 @@ class KernelCode(Kernel):
 
         if machine_and_compiler_dependent:
             compiler, compiler_args = self._machine.get_compiler()
-            compiler_args = '_'.join(compiler_args).replace('/', '')
+            # Escape slashes, and the separator to keep different flags apart
+            compiler_args = '_'.join([
+                a.replace('%', '%25').replace('_', '%5F').replace('/', '%2F')
+                for a in compiler_args])
             base_name += '/{}/{}/{}/'.format(
                 self._machine.get_identifier(), compiler, compiler_args)
         
-- 
2.43.0


From 43c0c75502adfcd296b90457289b272945dca873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 56/65] fix: take stores of read-modify-write instructions into
 account

The addresses they write move by the pointer increment like those of
any other store, x86 detection ignored them.
---
 kerncraft/incore_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 6da5821..c5f3190 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -139,10 +139,12 @@ class x86(ISA):
             if line.mnemonic is None:
                 continue
 
-            # Extract destination references, ignoring var(%rip)
+            # Extract destination references (including those read as well), ignoring var(%rip)
             dst_mem_references = [
                 op
-                for op in line.semantic_operands["destination"]
+                for op in chain(
+                    line.semantic_operands["destination"], line.semantic_operands["src_dst"]
+                )
                 if isinstance(op, MemoryOperand) and (op.base is None or op.base.name != "rip")
             ]
             if dst_mem_references:
-- 
2.43.0


From 4eeac97701f73b76974a855d9333a1e723a1e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 57/65] fix: lock the header while the executable is built, and
 make it if it is missing

---
 kerncraft/kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 614eecd..895c33e 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1826,6 +1826,8 @@ class KernelCode(Kernel):
             main_filename, main_lock_fp = self.get_main_code()
             kernel_obj_filename, kernel_obj_lock_fp = self.compile_kernel(
                 openmp=openmp, verbose=verbose)
+            # is included by main, thus also needed if the kernel did not have to be compiled
+            header_filename, header_lock_fp = self.get_kernel_header()
 
             infiles = [reduce_path(os.path.abspath(os.path.dirname(
                 os.path.realpath(__file__)))+'/headers/dummy.c'),
@@ -1841,6 +1843,7 @@ class KernelCode(Kernel):
                     subprocess.check_output(cmd)
                 main_lock_fp.close()
                 kernel_obj_lock_fp.close()
+                header_lock_fp.close()
                 self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
             except subprocess.CalledProcessError as e:
                 print("Build failed:", e, file=sys.stderr)
-- 
2.43.0


From 0491f59498cfa5ca0d8e2038784c852ec2297753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 58/65] fix: kc-pheno rejects malformed definitions, loops and
 flops and passes integers on as such

---
 kerncraft/standalone_pheno.py | 90 ++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 43 deletions(-)

diff --git a/kerncraft/standalone_pheno.py b/kerncraft/standalone_pheno.py
index 7dd6db5..e2bfe5b 100644
--- a/kerncraft/standalone_pheno.py
+++ b/kerncraft/standalone_pheno.py
@@ -20,6 +20,14 @@ from .kernel import BinaryDescription, symbol_pos_int
 from .machinemodel import MachineModel
 
 
+def int_or_float(text):
+    """Return number in *text*, as int if it is one."""
+    try:
+        return int(text)
+    except ValueError:
+        return float(text)
+
+
 class AppendStringRange(argparse.Action):
     """
     Argparse Action to append integer range from string.
@@ -41,38 +49,37 @@ class AppendStringRange(argparse.Action):
             message = 'requires 2 arguments'
         else:
             # optional: likwid region(s) for which this variable is specified
-            m = re.match(r'(?:(?P<region>(\D\w*,)*\D\w*):)?' 
-                         r'(?:(?P<start_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)?:?)'
-                         r'(?:(?P<stop_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)?\:?)?'
-                         r'(?:(?P<scale_var>log|lin)?)?', values[1])
+            m = re.match(r'(?:(?P<region>([^\d.]\w*,)*[^\d.]\w*):)?'
+                         r'(?P<start_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)'
+                         r'(?::(?P<stop_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)'
+                         r'(?::(?P<scale_var>log|lin))?)?$', values[1])
 
             if m:
                 gd = m.groupdict()
 
-                if gd['start_var'] is not None:
-
-                    # get likwid region(s)
-                    regions = gd['region'].split(',') if gd['region'] is not None else ['']
-                    variables['region'] = regions
+                # get likwid region(s)
+                regions = gd['region'].split(',') if gd['region'] is not None else ['']
+                variables['region'] = regions
 
-                    start = float(gd['start_var'])
-                    variables['start'] = start
-                    variables['value'] = start
+                # integers are passed on as such
+                start = int_or_float(gd['start_var'])
+                variables['start'] = start
+                variables['value'] = start
 
-                    if gd['stop_var'] is None:
-                        variables['adjustable'] = False
+                if gd['stop_var'] is None:
+                    variables['adjustable'] = False
+                else:
+                    variables['adjustable'] = True
+                    stop = int_or_float(gd['stop_var'])
+                    variables['stop'] = stop
+
+                    if gd['scale_var'] is None:
+                        variables['scale'] = 'lin' if stop > start else 'log'
+                        print("WARNING: You did not specify a scaling for your adjustable "
+                              "variable. From the choice of your start and stop values, {} "
+                              "scaling is assumed.".format(variables['scale']))
                     else:
-                        variables['adjustable'] = True
-                        stop = float(gd['stop_var'])
-                        variables['stop'] = stop
-
-                        if gd['scale_var'] is None:
-                            variables['scale'] = 'lin' if stop > start else 'log'
-                            print("WARNING: You did not specify a scaling for your adjustable "
-                                  "variable. From the choice of your start and stop values, {} "
-                                  "scaling is assumed.".format(variables['scale']))
-                        else:
-                            variables['scale'] = gd['scale_var']
+                        variables['scale'] = gd['scale_var']
             else:
                 message = 'second argument must match: [[...,]region:]start[:stop[:scale]]'
 
@@ -84,7 +91,7 @@ class AppendStringRange(argparse.Action):
             getattr(namespace, self.dest)[values[0]] = variables
         else:
             # setattr(namespace, self.dest, [values])
-            setattr(namespace, self.dest, OrderedDict(values[0], variables))
+            setattr(namespace, self.dest, OrderedDict([(values[0], variables)]))
 
 
 class AppendLoopRange(argparse.Action):
@@ -105,14 +112,14 @@ class AppendLoopRange(argparse.Action):
         # optional: likwid region(s) for which this loop range is specified
         m = re.match(r'(?:(?P<region>(\D\w*,)*\D\w*):)?'
                      # lower bound of loop
-                     r'(?P<start>\d+\.?\d*):'
+                     r'(?P<start>\d+):'
                      # optional: step size
-                     r'((?P<step>\d+\.?\d*):)?'
+                     r'((?P<step>\d+):)?'
                      # upper bound of loop
-                     r'(?P<end>\d+\.?\d*)'
+                     r'(?P<end>\d+)'
                      # optional: variable that is responsible for the loop length this is needed,
                      # when an adjustable variable controls the upper bound of a loop
-                     r'(:(?P<variable>\D\S*))?', 
+                     r'(:(?P<variable>\D\S*))?$',
                      values, flags=re.VERBOSE)
         if m:
             gd = m.groupdict()
@@ -122,18 +129,14 @@ class AppendLoopRange(argparse.Action):
 
             if gd['step'] is None:
                 gd['step'] = 1
-            try:
-                start = int(gd['start'])
-                end   = int(gd['end'])
-                step  = int(gd['step'])
-
-                values = {'start': start, 'end': end, 'step': step, 'variable': gd['variable'], 
-                          'offset': None}
-            except ValueError:
-                print("Pattern of loop range must match "
-                      "'[[...,]region:]start:[step:]end[:variable]'")
+            if int(gd['step']) == 0:
+                message = "step must not be zero"
+            values = {'start': int(gd['start']), 'end': int(gd['end']), 'step': int(gd['step']),
+                      'variable': gd['variable'], 'offset': None}
         else:
-            message = "argument must match: 'start:[step:]end|marker'"
+            message = "argument must match: '[[...,]region:]start:[step:]end[:variable]'"
+
+        if message:
             raise argparse.ArgumentError(self, message)
 
         if hasattr(namespace, self.dest):
@@ -147,7 +150,7 @@ class AppendLoopRange(argparse.Action):
                     getattr(namespace, self.dest)[region] = [values]
         else:
             # first loop to be defined
-            setattr(namespace, self.dest, [values])
+            setattr(namespace, self.dest, {region: [values] for region in regions})
 
 
 class AppendRepetitionDefines(argparse.Action):
@@ -235,7 +238,8 @@ class AppendFlops(argparse.Action):
         if hasattr(namespace, self.dest):
             for region in regions:
                 if region in getattr(namespace, self.dest).keys():
-                    raise Exception('FLOPs can only assigned once per region.')
+                    raise argparse.ArgumentError(self,
+                                                 'FLOPs can only assigned once per region.')
                 else:
                     getattr(namespace, self.dest)[region] = flops
         else:
-- 
2.43.0


From 03e2312329c21bbb0b3879a4525455031dea1039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 59/65] fix: kc-pheno counts the last, incomplete step of a
 loop

---
 kerncraft/kernel.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 895c33e..1eb41c7 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -22,7 +22,6 @@ import re
 from contextlib import contextmanager
 import fcntl
 
-from math import floor
 
 import sympy
 from sympy.utilities.lambdify import implemented_function
@@ -2054,8 +2053,8 @@ class BinaryDescription(Kernel):
         iterations_per_repetition = 1
 
         for loop in self.loops[region]:
-            iterations_per_repetition = \
-                iterations_per_repetition * floor((loop['end'] - loop['start']) / loop['step'])
+            # the last step may be incomplete
+            iterations_per_repetition *= max(0, -((loop['start'] - loop['end']) // loop['step']))
 
         return iterations_per_repetition
 
-- 
2.43.0


From 6f16b2f9425c13bef44c6f83ecb7a88655552779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 60/65] fix: regions of kc-pheno do not share repetitions, but
 the variables of their loops

---
 kerncraft/kernel.py                      |  4 ++--
 kerncraft/models/standalone_benchmark.py | 15 ++++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 1eb41c7..5dba70a 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1998,12 +1998,12 @@ class BinaryDescription(Kernel):
             # use ''-values as default for not specified regions
             try:
                 if not region in self.loops:
-                    self.loops[region] = self.loops['']
+                    self.loops[region] = deepcopy(self.loops[''])
                     if self.args.verbose > 1:
                         print('WARNING: used default value for loop information in region '
                               '{}.'.format(region))
                 if not region in self.repetitions:
-                    self.repetitions[region] = self.repetitions['']
+                    self.repetitions[region] = deepcopy(self.repetitions[''])
                     if self.args.verbose > 1:
                         print('WARNING: used default value for repetition information in region '
                               '{}.'.format(region))
diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 2e5c3c0..001c1d7 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -7,6 +7,7 @@ import operator
 import sys
 from distutils.spawn import find_executable
 import re
+import itertools
 from collections import defaultdict
 import string
 import pprint
@@ -183,11 +184,11 @@ class StandaloneBenchmark(PerformanceModel):
         The first variables defined will be adjusted first.
         """
 
-        def adjust_loop(varname, region):
-            for i in range(len(self.kernel.loops[region])):
-                if self.kernel.loops[region][i]['variable'] == varname:
-                    self.kernel.loops[region][i]['end'] = self.kernel.define[varname]['value'] - \
-                        self.kernel.loops[region][i]['offset']
+        def adjust_loops(varname):
+            # the variable is the same in all regions
+            for loop in itertools.chain.from_iterable(self.kernel.loops.values()):
+                if loop['variable'] == varname:
+                    loop['end'] = self.kernel.define[varname]['value'] - loop['offset']
 
         adjustable = False
 
@@ -206,14 +207,14 @@ class StandaloneBenchmark(PerformanceModel):
                         self.kernel.define[name]['value'] = min(variable['value'] * factor,
                                                                 variable['stop'])
                         self.kernel.set_constant(name, self.kernel.define[name]['value'])
-                        adjust_loop(name, region)
+                        adjust_loops(name)
                         adjustable = True
                         break
                     elif variable['scale'] == 'log' and variable['value'] > variable['stop']:
                         self.kernel.define[name]['value'] = max(
                             variable['value'] * (10 ** (-factor)),variable['stop'])
                         self.kernel.set_constant(name, self.kernel.define[name]['value'])
-                        adjust_loop(name, region)
+                        adjust_loops(name)
                         adjustable = True
                         break
 
-- 
2.43.0


From 8c5eac2004a15d1b0ff23ac202e43f2b742ae903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 61/65] fix: kc-pheno does not repeat measurements forever that
 it can not prolong

---
 kerncraft/models/standalone_benchmark.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 001c1d7..7d15c7c 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -202,8 +202,9 @@ class StandaloneBenchmark(PerformanceModel):
         for region in regions:
             for name, variable in self.kernel.define.items():
                 if variable['adjustable'] and region in variable['region']:
-                    factor = ceil(2.0 / runtimes[region])
-                    if variable['scale'] == 'lin' and variable['value'] < variable['stop']:
+                    # no factor can be known if nothing was measured
+                    factor = ceil(2.0 / runtimes[region]) if runtimes[region] else 10
+                    if variable['scale'] == 'lin' and 0 < variable['value'] < variable['stop']:
                         self.kernel.define[name]['value'] = min(variable['value'] * factor,
                                                                 variable['stop'])
                         self.kernel.set_constant(name, self.kernel.define[name]['value'])
@@ -230,7 +231,7 @@ class StandaloneBenchmark(PerformanceModel):
         input_args = []
 
         # Determine base runtime with 10 iterations
-        runtimes = {'': 0.0}
+        runtimes = None
         time_per_repetition = None
 
         repetitions = self.kernel.repetitions
@@ -246,14 +247,10 @@ class StandaloneBenchmark(PerformanceModel):
         else:
             group = valid_groups[0]
 
-        while min(runtimes.values()) < 1.5:
+        while runtimes is None or min(runtimes.values()) < 1.5:
 
-            if min(runtimes.values()) == 0.0:
-                adjustable = True
-            else:
-                adjustable = self.adjust_variables(runtimes)
-
-            if not adjustable:
+            # first run is done with initial values
+            if runtimes is not None and not self.adjust_variables(runtimes):
                 print("WARNING: Could not extrapolate to a 1.5s run (for at least one region). "
                       "Measurements might not be accurate.", file=output_file)
                 break
-- 
2.43.0


From e300ae48acb42a1140b08b96417595241e209025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 62/65] fix: kc-pheno merges counters of several runs and knows
 those with options

---
 kerncraft/models/standalone_benchmark.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 7d15c7c..e325d70 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -144,7 +144,8 @@ class StandaloneBenchmark(PerformanceModel):
                     counter_value = 0
                 else:
                     counter_value = int(line[2])
-                if re.fullmatch(r'[A-Z0-9_]+', line[0]) and re.fullmatch(r'[A-Z0-9]+', line[1]):
+                if re.fullmatch(r'[A-Z0-9_]+', line[0]) and \
+                        re.fullmatch(r'[A-Z0-9]+(:[A-Za-z0-9_=-]+)*', line[1]):
                     results[current_region].setdefault(line[0], {})
                     results[current_region][line[0]][line[1]] = counter_value
                     continue
@@ -339,7 +340,9 @@ class StandaloneBenchmark(PerformanceModel):
                 raw_results_collection.append(r)
 
                 for region in self.kernel.regions:
-                    measured_ctrs[region].update(r[region])
+                    for event, counts in r[region].items():
+                        if isinstance(counts, dict):
+                            measured_ctrs[region].setdefault(event, {}).update(counts)
 
 
         # start analysing for each region
@@ -359,7 +362,10 @@ class StandaloneBenchmark(PerformanceModel):
                 # Match measured counters to symbols
                 event_counter_results = {}
                 for sym, ctr in event_counters.items():
-                    event, regs, parameter = ctr[0], register_options(ctr[1]), ctr[2]
+                    event, regs, parameters = ctr[0], register_options(ctr[1]), ctr[2]
+                    if parameters:
+                        parameter_str = ':'.join(parameters)
+                        regs = [r+':'+parameter_str for r in regs]
                     for r in regs:
                         if r in measured_ctrs[region][event]:
                             event_counter_results[sym] = measured_ctrs[region][event][r]
-- 
2.43.0


From 0dfe18c5db6016fecf66d68cac54943f5cece98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 63/65] fix: kc-pheno uses the metrics that machine
 descriptions have

---
 kerncraft/models/standalone_benchmark.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index e325d70..57cf6a6 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -320,11 +320,10 @@ class StandaloneBenchmark(PerformanceModel):
                 self.machine['non-overlapping model']['performance counter metric'])
             event_counters.update(event_dict)
             cache_metrics = defaultdict(dict)
-            for i in range(len(self.machine['memory hierarchy']) - 1):
-                cache_info = self.machine['memory hierarchy'][i]
+            for cache_info in self.machine['memory hierarchy']:
                 name = cache_info['level']
                 for k, v in cache_info['performance counter metrics'].items():
-                    cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(v)
+                    cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(str(v))
                     event_counters.update(event_dict)
 
             # Compile minimal runs to gather all required events
@@ -385,7 +384,8 @@ class StandaloneBenchmark(PerformanceModel):
                 cache_transfers_per_cl = {cache: {k: PrefixedUnit(v / total_cachelines, 'CL/CL')
                                                   for k, v in d.items()}
                                           for cache, d in cache_metric_results.items()}
-                cache_transfers_per_cl['L1']['accesses'].unit = 'LOAD/CL'
+                cache_transfers_per_cl['L1']['loads'].unit = 'LOAD/CL'
+                cache_transfers_per_cl['L1']['stores'].unit = 'LOAD/CL'
 
                 # Select appropriate bandwidth
                 mem_bw, mem_bw_kernel = self.machine.get_bandwidth(
@@ -396,17 +396,17 @@ class StandaloneBenchmark(PerformanceModel):
 
                 data_transfers = {
                     # Assuming 0.5 cy / LOAD (SSE on SNB or IVB; AVX on HSW, BDW, SKL or SKX)
-                    'T_nOL': (cache_metric_results['L1']['accesses'] / total_cachelines * 0.5),
-                    'T_L1L2': ((cache_metric_results['L1']['misses'] +
-                                cache_metric_results['L1']['evicts']) /
+                    'T_nOL': (cache_metric_results['L1']['loads'] / total_cachelines * 0.5),
+                    'T_L1L2': ((cache_metric_results['L2']['loads'] +
+                                cache_metric_results['L2']['stores']) /
                                total_cachelines * cl_size /
                                self.machine['memory hierarchy'][1]['upstream throughput'][0]),
-                    'T_L2L3': ((cache_metric_results['L2']['misses'] +
-                                cache_metric_results['L2']['evicts']) /
+                    'T_L2L3': ((cache_metric_results['L3']['loads'] +
+                                cache_metric_results['L3']['stores']) /
                                total_cachelines * cl_size /
                                self.machine['memory hierarchy'][2]['upstream throughput'][0]),
-                    'T_L3MEM': ((cache_metric_results['L3']['misses'] +
-                                 cache_metric_results['L3']['evicts']) *
+                    'T_L3MEM': ((cache_metric_results['MEM']['loads'] +
+                                 cache_metric_results['MEM']['stores']) *
                                 float(self.machine['cacheline size']) /
                                 total_cachelines / mem_bw *
                                 float(self.machine['clock']))
-- 
2.43.0


From 47eef4ef26719e7ae5ec481ed463639c29ac665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 64/65] fix: kc-pheno shows metrics below their names

---
 kerncraft/models/standalone_benchmark.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 57cf6a6..f66b59b 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -490,15 +490,14 @@ class StandaloneBenchmark(PerformanceModel):
             if not self.no_phenoecm:
                 print("Data Transfers:")
                 print("{:^8} |".format("cache"), end='')
-                for metrics in self.results[region]['data transfers'].values():
-                    for metric_name in sorted(metrics):
-                        print(" {:^14}".format(metric_name), end='')
-                    print()
-                    break
+                metric_names = ['loads', 'misses', 'stores', 'evicts']
+                for metric_name in metric_names:
+                    print(" {:^14}".format(metric_name), end='')
+                print()
                 for cache, metrics in sorted(self.results[region]['data transfers'].items()):
                     print("{!s:^8} |".format(cache), end='')
-                    for k, v in sorted(metrics.items()):
-                        print(" {!s:^14}".format(v), end='')
+                    for metric_name in metric_names:
+                        print(" {!s:^14}".format(metrics.get(metric_name, '-')), end='')
                     print()
                 print()
 
-- 
2.43.0


From 01248f5f6b8ea7fd28df889930ce02a5eddb1e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 65/65] fix: kc-pheno reports to the output file only

---
 kerncraft/models/standalone_benchmark.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index f66b59b..3a947e4 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -454,11 +454,11 @@ class StandaloneBenchmark(PerformanceModel):
 
         for region in self.kernel.regions:
 
-            print('\nResults for region \'{}\'\n'.format(region))
+            print('\nResults for region \'{}\'\n'.format(region), file=output_file)
 
             if self.verbose > 1:
                 with pprint_nosort():
-                    pprint.pprint(self.results[region])
+                    pprint.pprint(self.results[region], stream=output_file)
 
             if self.verbose > 0:
                 print('Runtime (per repetition): {:.2g} s'.format(
@@ -488,18 +488,18 @@ class StandaloneBenchmark(PerformanceModel):
             print(file=output_file)
 
             if not self.no_phenoecm:
-                print("Data Transfers:")
-                print("{:^8} |".format("cache"), end='')
+                print("Data Transfers:", file=output_file)
+                print("{:^8} |".format("cache"), end='', file=output_file)
                 metric_names = ['loads', 'misses', 'stores', 'evicts']
                 for metric_name in metric_names:
-                    print(" {:^14}".format(metric_name), end='')
-                print()
+                    print(" {:^14}".format(metric_name), end='', file=output_file)
+                print(file=output_file)
                 for cache, metrics in sorted(self.results[region]['data transfers'].items()):
-                    print("{!s:^8} |".format(cache), end='')
+                    print("{!s:^8} |".format(cache), end='', file=output_file)
                     for metric_name in metric_names:
-                        print(" {!s:^14}".format(metrics.get(metric_name, '-')), end='')
-                    print()
-                print()
+                        print(" {!s:^14}".format(metrics.get(metric_name, '-')), end='', file=output_file)
+                    print(file=output_file)
+                print(file=output_file)
 
                 print('Phenomenological ECM model: {{ {T_OL:.1f} || {T_nOL:.1f} | {T_L1L2:.1f} | '
                       '{T_L2L3:.1f} | {T_L3MEM:.1f} }} cy/CL'.format(
-- 
2.43.0

